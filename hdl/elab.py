"""Every module can be generated, and the generated hardware is complete: one driver per signal, no
combinational loop, every outside signal in the port list."""
import ast as PY
from lib import *
from nmigen.hdl.ast import Array as ArrayT


def modules():
    out = []
    for f in sorted(os.listdir(MIGEN)):
        if f.endswith(".py"):
            t = PY.parse(open(os.path.join(MIGEN, f)).read())
            if any(isinstance(n, PY.If) and "__main__" in PY.dump(n.test) for n in t.body):
                out.append(f[:-3])
    return out


def captured(name):
    """what the module's own generator section hands to nMigen: (top, ports)"""
    m = module(name)
    t = PY.parse(open(m.__file__).read(), m.__file__)
    got = []
    ns = dict(m.__dict__)
    ns["main"] = lambda design, ports=(), **kw: got.append((design, list(ports)))
    for n in t.body:
        if isinstance(n, PY.If) and "__main__" in PY.dump(n.test):
            code = compile(PY.Module(body=n.body, type_ignores=[]), m.__file__, "exec")
            try:
                exec(code, ns)
            except AssertionError:
                raise
            except Exception as e:
                raise ElabError("%s: %s: %s" % (name, type(e).__name__, e))
    return got


def generated(rep, name):
    W = "migen_src/%s.py" % name
    try:
        got = captured(name)
        if len(got) != 1:
            raise AnalysisError("%s: %d designs generated" % (name, len(got)))
        top, ports = got[0]
        flat = []
        for p in ports:
            flat += list(p) if isinstance(p, (list, tuple)) else [p]
        d = Design(top)
    except (ElabError, AssertionError) as e:
        rep.check(False, "generates", W, "no hardware is generated: %s" % e)
        return
    rep.check(True, "generates", W)
    rep.stat(d)
    pid = {id(p) for p in flat}
    dom = set()
    for cd in d.domains.values():
        for s in (cd.clk, cd.rst):
            if s is not None:
                dom.add(id(s))
    # everything that is read has a source
    read = {}
    used = set()
    for sid in d.drivers:
        for x in d.deps(d.sigs[sid]):
            read.setdefault(id(x), (x, d.sigs[sid]))
            if id(x) != sid:
                used.add(id(x))     # a register that only counts on from itself is not used
    for bb in d.bbs:
        for x in bb.ins.values():
            read.setdefault(id(x), (x, None))
            used.add(id(x))
    for sid, (x, by) in sorted(read.items(), key=lambda t: t[1][0].name):
        ok = sid in d.drivers or sid in d.bb_out or sid in pid or sid in dom
        rep.check(ok, "has-source", "%s, %s" % (W, x.name), lambda: "%s is used%s but neither driven nor in the port "
                  "list: it is stuck at %d; %s" % (x.name, " by " + by.name if by is not None else "", x.reset, d.where(x)))
    for sid, ds in d.drivers.items():
        rep.check(len({(x.domain, x.frag_path) for x in ds}) == 1, "one-driver", "%s, %s" % (W, d.sigs[sid].name),
                  lambda: "%s is driven from several modules or clocks; %s" % (d.sigs[sid].name, d.where(d.sigs[sid])))
    for n, v in sorted(vars(top).items()):
        for x in (v if isinstance(v, (list, tuple, ArrayT)) else [v]):
            if id(x) in d.drivers and id(x) not in used and d.sigs[id(x)] is x:
                rep.check(id(x) in pid, "result-exported", "%s, %s" % (W, n), lambda: "%s is computed for the outside but "
                          "missing from the port list; %s" % (n, d.where(x)))
    for n, x in sorted(interfaces(top).items()):
        if id(x) in d.drivers and id(x) not in used:
            rep.check(id(x) in pid, "result-exported", "%s, %s" % (W, n), lambda: "the bus output %s is missing from the "
                      "port list; %s" % (n, d.where(x)))
    for p in flat:
        rep.check(p.width >= 1, "port-has-bits", "%s, %s" % (W, p.name), lambda: "the port %s has no bit; %s"
                  % (p.name, d.where(p)))
    loop = comb_loop(d)
    rep.check(not loop, "no-combinational-loop", W, lambda: "combinational loop through %s; %s"
              % (" <- ".join(x.name for x in loop), d.where(loop[0])))
    for p in flat:
        if id(p) in d.drivers or id(p) in read or id(p) in d.bb_out:
            continue
        rep.notes.append("unused port %s" % p.name)
    return d, top, flat


def interfaces(top):
    """the fields of every bus record of the design's objects"""
    from nmigen.hdl.rec import Record
    from nmigen import Elaboratable
    out, todo, seen = {}, [top], set()
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        for v in vars(o).values():
            if isinstance(v, Record):
                for x in v.fields.values():
                    if not isinstance(x, Record):
                        out[x.name] = x
            elif isinstance(v, Elaboratable):
                todo.append(v)
    return out


# widths of AXI3 and AXI-lite bus signals that do not depend on the bus, and of those that do (Zynq-7000: the
# general purpose master port has 12-bit ids and 32-bit data, the high performance slave port 6 and 64)
ANY = dict(addr=32, burst=2, len=4, size=2, prot=3, resp=2, valid=1, ready=1, last=1)
BUS = {"gp": dict(id=12, data=32, strb=4), "hp": dict(id=6, data=64, strb=8), "lite": dict(data=32, strb=4)}
BUSES = [("axihp_writer", "AxiHPWriter", {"m_axi": "hp"}), ("axihp_reader", "AxiHPReader", {"m_axi": "hp"}),
         ("axi_lite", "AxiLite", {"s_axi": "gp", "m_axi": "lite"}), ("core_axi_lite", "CoreAxiLite", {"s_axi": "lite"}),
         ("dma_axi_lite", "DMAAxiLite", {"s_axi": "lite"})]


def buses(rep, k):
    """the fields of every bus record have the widths of the bus"""
    from nmigen.hdl.rec import Record
    mod, cls, side = BUSES[k]
    if mod == "core_axi_lite":
        top = make_cfg(mod, cls, dict(bit_depth=12, pixels_per_cycle=2, axi_lite_debug=False))
    else:
        top = make(mod, cls)
    found = 0
    for n, v in sorted(vars(top).items()):
        if not isinstance(v, Record) or n[:5] not in side:
            continue
        want = dict(ANY, **BUS[side[n[:5]]])
        for f, x in v.fields.items():
            for pre in ("aw", "ar", "w", "r", "b"):
                if f.startswith(pre) and f[len(pre):] in want:
                    found += 1
                    w = want[f[len(pre):]]
                    rep.check(x.width == w, "bus-width", "%s, %s.%s" % (cname(top), n, f), lambda: "%s has %d bits, on "
                              "the bus it has %d; declared %s" % (f, x.width, w, loc(x.src_loc)))
                    break
    if not found:
        raise AnalysisError("anchor vanished: no bus record in %s" % mod)


def comb_loop(d):
    """a cycle of signals each of which depends on the next within one clock cycle"""
    state, path = {}, []
    for sid in d.drivers:
        stack = [(d.sigs[sid], None)]
        if state.get(sid):
            continue
        # iterative depth-first search
        todo = [(sid, iter(_comb(d, sid)))]
        state[sid] = 1
        path = [sid]
        while todo:
            cur, it = todo[-1]
            for x in it:
                st = state.get(id(x))
                if st == 1:
                    return [d.sigs[i] for i in path[path.index(id(x)):]]
                if st is None:
                    state[id(x)] = 1
                    path.append(id(x))
                    todo.append((id(x), iter(_comb(d, id(x)))))
                    break
            else:
                state[cur] = 2
                todo.pop()
                path.pop()
    return None


def _comb(d, sid):
    if sid in d.drivers and not d.is_reg(d.sigs[sid]):
        return d.deps(d.sigs[sid])
    return []
