"""Lowering of an elaborated nMigen design into a small next-state IR.

The design is obtained the way nMigen's own back end obtains it (Fragment.get on the
module), from /repo's current sources; nothing is simulated and no Verilog is written.
The IR is, per driven signal, the statement trees that drive it (file:line kept), its
clock domain and its reset value.  FIFOs and memories are kept as black boxes with ports.
"""
import os
import sys
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True

import nmigen
from nmigen.hdl import ast as A
from nmigen.hdl import ir as IRM
from nmigen.hdl import mem as MEM
from nmigen.hdl import rec as REC
from nmigen.lib import fifo as FIFO


class AnalysisError(Exception):
    """The analysis cannot give an answer (an anchor vanished, an unsupported construct)."""


class ElabError(Exception):
    """The design does not elaborate."""


class BlackBox:
    __slots__ = ("kind", "obj", "ins", "outs", "params", "domain", "path")

    def __init__(self, kind, obj, ins, outs, params, domain):
        self.kind, self.obj, self.ins, self.outs, self.params, self.domain = \
            kind, obj, ins, outs, params, domain
        self.path = ()


class BBFragment(IRM.Fragment):
    def __init__(self, bb):
        super().__init__()
        self.bb = bb


def _install_hooks():
    def fifo_elab(kind):
        def elaborate(self, platform):
            return BBFragment(BlackBox(
                kind, self,
                {"w_data": self.w_data, "w_en": self.w_en, "r_en": self.r_en},
                {"w_rdy": self.w_rdy, "r_data": self.r_data, "r_rdy": self.r_rdy,
                 "level": self.level},
                {"width": self.width, "depth": self.depth, "fwft": self.fwft}, "sync"))
        return elaborate
    FIFO.SyncFIFO.elaborate = fifo_elab("SyncFIFO")
    FIFO.SyncFIFOBuffered.elaborate = fifo_elab("SyncFIFOBuffered")

    def rd_elab(self, platform):
        return BBFragment(BlackBox("ReadPort", self, {"addr": self.addr}, {"data": self.data},
                                   {"memory": self.memory, "transparent": self.transparent},
                                   self.domain))

    def wr_elab(self, platform):
        return BBFragment(BlackBox("WritePort", self,
                                   {"addr": self.addr, "data": self.data, "en": self.en}, {},
                                   {"memory": self.memory}, self.domain))
    MEM.ReadPort.elaborate = rd_elab
    MEM.WritePort.elaborate = wr_elab


_install_hooks()


def loc(src):
    """file:line of a source location, relative to the repository."""
    if not src:
        return "?"
    f, l = src[0], src[1]
    for root in (os.environ.get("VERIF_REPO", "/repo"),):
        if f.startswith(root + "/"):
            f = f[len(root) + 1:]
    return "%s:%s" % (f, l)


class Driver:
    __slots__ = ("domain", "stmts", "frag_path")

    def __init__(self, domain, frag_path):
        self.domain, self.frag_path = domain, frag_path
        self.stmts = []


class Design:
    """A flattened design."""

    def __init__(self, top, cut=()):
        self.top = top
        try:
            frag = IRM.Fragment.get(top, None)
        except AnalysisError:
            raise
        except Exception as e:           # elaboration of the repository's own code failed
            raise ElabError("%s: %s" % (type(e).__name__, e))
        self.drivers = {}                # id(signal) -> list of Driver
        self.sigs = {}                   # id(signal) -> signal
        self.bbs = []
        self.bb_out = {}                 # id(signal) -> (bb, port)
        self.domains = {}
        self.nfrag = 0
        self.nstmt = 0
        self.frag_of = {}
        self._walk(frag, ("top",))
        self._deps = {}
        for sid in list(self.drivers):
            for x in self.deps(self.sigs[sid]):
                self.sigs.setdefault(id(x), x)
        for bb in self.bbs:
            for x in bb.ins.values():
                self.sigs.setdefault(id(x), x)
        self._cut = {}
        for s in cut:
            self._cut[id(s)] = s

    def _walk(self, frag, path):
        self.nfrag += 1
        for name, cd in frag.domains.items():
            self.domains.setdefault(name, cd)
        if isinstance(frag, BBFragment):
            bb = frag.bb
            bb.path = path
            self.bbs.append(bb)
            for port, s in bb.outs.items():
                self.bb_out[id(s)] = (bb, port)
                self.sigs[id(s)] = s
            return
        if isinstance(frag, IRM.Instance):
            raise AnalysisError("unsupported primitive instance %r at %s" % (frag.type, path))
        dom_of = {}
        for domain, sigs in frag.drivers.items():
            for s in sigs:
                dom_of[id(s)] = domain
                self.sigs[id(s)] = s
        per = {}
        for st in frag.statements:
            for s in st._lhs_signals():
                per.setdefault(id(s), []).append(st)
                self.sigs[id(s)] = s
        for sid, domain in dom_of.items():
            d = Driver(domain, path)
            d.stmts = [_filter(st, sid) for st in per.get(sid, [])]
            self.nstmt += len(d.stmts)
            self.drivers.setdefault(sid, []).append(d)
        for i, (sub, name) in enumerate(frag.subfragments):
            self._walk(sub, path + (name if name is not None else "U$%d" % i,))

    # -- queries ---------------------------------------------------------------
    def driver(self, sig):
        ds = self.drivers.get(id(sig))
        if not ds:
            return None
        if len(ds) > 1:
            raise AnalysisError("signal %s has %d drivers" % (sig.name, len(ds)))
        return ds[0]

    def is_reg(self, sig):
        d = self.drivers.get(id(sig))
        return bool(d) and d[0].domain is not None and id(sig) not in self._cut

    def is_cut(self, sig):
        return id(sig) in self._cut

    def where(self, sig):
        d = self.drivers.get(id(sig))
        locs = []
        if d:
            for dr in d:
                for st in dr.stmts:
                    _collect_locs(st, locs)
        seen = []
        for l in locs:
            if l not in seen:
                seen.append(l)
        s = "%s (declared %s" % (sig.name, loc(sig.src_loc))
        if seen:
            s += "; driven at " + ", ".join(seen[:6]) + (" ..." if len(seen) > 6 else "")
        return s + ")"

    def deps(self, sig):
        """Signals the driver of sig reads (one combinational or clocked step)."""
        key = id(sig)
        r = self._deps.get(key)
        if r is None:
            acc = {}
            for d in self.drivers.get(key, ()):
                for st in d.stmts:
                    _collect_reads(st, acc)
            r = self._deps[key] = list(acc.values())
        return r

    def cone(self, sigs, stop=()):
        """All signals that can influence sigs, through registers (sequential cone)."""
        stop = {id(s) for s in stop}
        seen, todo = {}, list(sigs)
        while todo:
            s = todo.pop()
            if id(s) in seen:
                continue
            seen[id(s)] = s
            if id(s) in self._cut or id(s) in stop:
                continue
            todo.extend(self.deps(s))
        return list(seen.values())

    def comb_cone(self, sig):
        """Signals that can influence sig within one clock cycle; stops at registers."""
        seen, todo = {}, [sig]
        first = True
        while todo:
            s = todo.pop()
            if id(s) in seen:
                continue
            seen[id(s)] = s
            d = self.drivers.get(id(s))
            if id(s) in self._cut and not first:
                continue
            if d and d[0].domain is None:
                todo.extend(self.deps(s))
            first = False
        return list(seen.values())

    def regs(self, sigs=None):
        src = self.cone(sigs) if sigs is not None else list(self.sigs.values())
        return [s for s in src if self.is_reg(s)]

    def undriven(self, sigs):
        return [s for s in self.cone(sigs)
                if id(s) not in self.drivers and id(s) not in self.bb_out]

    def stats(self):
        return {"fragments": self.nfrag, "statements": self.nstmt,
                "signals": len(self.sigs), "registers": len(self.regs()),
                "blackboxes": len(self.bbs)}


def _filter(st, sid):
    """The part of a statement that drives signal sid."""
    if isinstance(st, A.Switch):
        cases = []
        for patterns, body in st.cases.items():
            cases.append((patterns, [_filter(b, sid) for b in body
                                     if any(id(x) == sid for x in b._lhs_signals())],
                          st.case_src_locs.get(patterns) if hasattr(st, "case_src_locs") else None))
        return ("switch", st.test, cases, st.src_loc)
    if isinstance(st, A.Assign):
        return ("assign", st.lhs, st.rhs, st.src_loc)
    raise AnalysisError("unsupported statement %r" % (st,))


def _collect_locs(st, out):
    if st[0] == "assign":
        out.append(loc(st[3]))
    else:
        for _, body, _l in st[2]:
            for b in body:
                _collect_locs(b, out)


def _collect_reads(st, acc):
    if st[0] == "assign":
        for s in _reads(st[2]):
            acc[id(s)] = s
        for s in _lhs_reads(st[1]):
            acc[id(s)] = s
    else:
        for s in _reads(st[1]):
            acc[id(s)] = s
        for _, body, _l in st[2]:
            for b in body:
                _collect_reads(b, acc)


def _reads(v):
    if isinstance(v, A.Signal):
        yield v
    elif isinstance(v, (A.Const,)):
        return
    elif isinstance(v, A.Operator):
        for o in v.operands:
            yield from _reads(o)
    elif isinstance(v, A.Slice):
        yield from _reads(v.value)
    elif isinstance(v, A.Part):
        yield from _reads(v.value)
        yield from _reads(v.offset)
    elif isinstance(v, A.Cat):
        for p in v.parts:
            yield from _reads(p)
    elif isinstance(v, A.Repl):
        yield from _reads(v.value)
    elif isinstance(v, A.ArrayProxy):
        for e in v.elems:
            yield from _reads(A.Value.cast(e))
        yield from _reads(A.Value.cast(v.index))
    elif isinstance(v, A.UserValue):
        yield from _reads(v._lazy_lower())
    elif isinstance(v, REC.Record):
        for f in v.fields.values():
            yield from _reads(f)
    elif isinstance(v, (A.ClockSignal, A.ResetSignal)):
        return
    else:
        raise AnalysisError("unsupported expression %s" % type(v).__name__)


def _lhs_reads(v):
    if isinstance(v, A.Slice):
        yield from _lhs_reads(v.value)
    elif isinstance(v, A.Part):
        yield from _lhs_reads(v.value)
        yield from _reads(v.offset)
    elif isinstance(v, A.Cat):
        for p in v.parts:
            yield from _lhs_reads(p)
    elif isinstance(v, A.ArrayProxy):
        for e in v.elems:
            yield from _lhs_reads(A.Value.cast(e))
        yield from _reads(A.Value.cast(v.index))
    elif isinstance(v, A.UserValue):
        yield from _lhs_reads(v._lazy_lower())
    elif isinstance(v, REC.Record):
        for f in v.fields.values():
            yield from _lhs_reads(f)
