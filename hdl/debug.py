"""The debug counters of a core: counter i advances by one for every cycle in which its condition holds.

Explicit-state fixpoint over the constants of the small control registers in the counters' backward slice,
with a ghost record of the conditions of the last cycles; the counters themselves are symbolic words."""
import ast as PY, types
from itertools import product
from lib import *
from absint import *

NAMES = ["no input", "input", "no output", "output", "ready", "not ready", "stalled", "not stalled"]


def with_debug(mod, cls):
    """the module's class with the AXI-lite port and its counters switched on in its configuration"""
    m = module(mod)
    t = PY.parse(open(m.__file__).read(), m.__file__)
    n = 0
    for d in PY.walk(t):
        if isinstance(d, PY.Dict):
            for i, k in enumerate(d.keys):
                if isinstance(k, PY.Constant) and k.value in ("support_axi_lite", "axi_lite_debug") or \
                        getattr(k, "s", None) in ("support_axi_lite", "axi_lite_debug"):
                    d.values[i] = PY.copy_location(PY.NameConstant(True), d.values[i])
                    n += 1
    if not n:
        raise AnalysisError("%s: no configuration with an AXI-lite port found" % mod)
    t.body = [b for b in t.body if not (isinstance(b, PY.If) and "__main__" in PY.dump(b.test))]
    ns = types.ModuleType(mod)
    ns.__file__ = m.__file__
    try:
        exec(compile(PY.fix_missing_locations(t), m.__file__, "exec"), ns.__dict__)
        return getattr(ns, cls)()
    except AssertionError:
        raise
    except Exception as e:
        raise ElabError("%s: %s: %s" % (mod, type(e).__name__, e))


def counters(rep, which):
    import reset
    mod, cls = reset.TOPS[which]
    top = with_debug(mod, cls)
    regs = attr(top, "integration_3.integration_2.integration_1.core_axi_lite.debug_module.registers")
    regs = [regs[i] for i in range(8)]
    W = cname(top)
    cut = [top.end_out, top.valid_out, top.nready]
    d = Design(top, cut)
    rep.stat(d)
    for i, r in enumerate(regs):
        if not rep.check(d.is_reg(r) and len(r) == 32, "counts", "%s, counter %d" % (W, i),
                         lambda: "counter %d is not a 32-bit count; %s" % (i, d.where(r))):
            return
        rep.check(d.drivers[id(r)][0].domain != "sync", "kept-over-reset", "%s, counter %d" % (W, i),
                  lambda: "counter %d is cleared by the reset after every frame; %s" % (i, d.where(r)))
    mine = {id(r) for r in regs}
    ctl = [s for s in d.regs(regs) if id(s) not in mine]
    if sum(s.width for s in ctl) > 64:
        raise AnalysisError("the debug counters depend on %d bits of state" % sum(s.width for s in ctl))
    ports = [top.valid_in, top.valid_out, top.nready, top.busy_in, top.end_out]
    words = {id(r): word("count%d" % i, 32) for i, r in enumerate(regs)}
    plus = [tuple(bits_of(fadd(form_of(words[id(r)]), (1, ())), 32)) for r in regs]
    free = {id(s): word("free:" + s.name, s.width) for s in d.sigs.values()
            if (id(s) not in d.drivers or d.is_cut(s)) and id(s) not in d.bb_out}

    def ctx(st, x):
        inp = dict(free)
        if x is not None:
            inp.update({id(s): (b,) for s, b in zip(ports, x)})
        state = {id(s): const_word(k, s.width) for s, k in zip(ctl, st)}
        state.update(words)
        return Ctx(d, state, inp, Env())

    memo_a, memo_n = {}, {}

    def advance(st, x):
        """per counter: does it advance in this cycle?  None: something else happens to it"""
        for k in (st, (st, x)):
            if k in memo_a:
                if memo_a[k] is not None:
                    return memo_a[k]
                continue
            try:
                c = ctx(st, None if k is st else x)
                out = []
                for r, p in zip(regs, plus):
                    n = Env().subw(c.next(r))
                    out.append(1 if n == p else 0 if n == words[id(r)] else None)
            except Split:
                out = [None]
            memo_a[k] = tuple(out) if k is not st or None not in out else None
            if memo_a[k] is not None:
                return memo_a[k]

    def after(st, x):
        if (st, x) not in memo_n:
            c = ctx(st, x)
            nxt = []
            for s in ctl:
                n = Env().subw(c.next(s))
                if any(b not in (0, 1) for b in n):
                    raise AnalysisError("%s depends on other inputs than the core's ports" % s.name)
                nxt.append(sum(b << i for i, b in enumerate(n)))
            memo_n[st, x] = tuple(nxt)
        return memo_n[st, x]

    def wants(started, x, rst):
        v, o, nr, bs, en = x
        if rst or (v and not started):
            return (None,) * 8
        if en or not started:
            return (0,) * 8
        return (int(not v), v, int(not o), o, nr, int(not nr), bs, int(not bs))
    inputs = list(product((0, 1), repeat=5))
    start = tuple(s.reset for s in ctl)

    def explore(lag, per_frame):
        """-> None, or (steps done, what goes wrong)"""
        todo, seen, n = [(start, 0, 0, ((0,) * 8,) * lag)], set(), 0
        while todo:
            key = todo.pop()
            if key in seen:
                continue
            seen.add(key)
            st, started, rst, win = key
            for x in inputs:
                n += 1
                now = wants(started, x, rst)
                due = (win + (now,))[0]
                adv = advance(st, x)
                for i in range(8):
                    if due[i] is not None and adv[i] != due[i]:
                        return n, i, "counter %d (%s) %s a cycle in which its condition %s" % (
                            i, NAMES[i], "is changed to something else than the next number in" if adv[i] is None else
                            "counts" if adv[i] else "does not count", "holds" if due[i] else "does not hold")
                nxt = after(st, x)
                if rst:
                    nxt = tuple(s.reset if d.drivers[id(s)][0].domain == "sync" and not s.reset_less else k
                                for s, k in zip(ctl, nxt))
                begun = 0 if rst and per_frame else int(started or x[0])
                todo.append((nxt, begun, int(x[4] and x[1] and not x[3]), (win + (now,))[1:]))
            if len(seen) > 40000:
                raise AnalysisError("debug counters: too many states")
        rep.count("states", len(seen))
        rep.count("steps", n)
        return None
    worst = None
    for lag in range(5):
        for per_frame in (True, False):
            r = explore(lag, per_frame)
            if r is None:
                rep.check(True, "counts", W)
                rep.sample("%s: counters follow their conditions after %d cycles" % (W, lag))
                return
            if worst is None or r[0] > worst[0]:
                worst = r
    _, i, what = worst
    rep.check(False, "counts", "%s, counter %d" % (W, i), "%s; %s" % (what, d.where(regs[i])))
