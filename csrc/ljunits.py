"""Units of the liblj92 properties."""
import json
import os

import lj
from lib import AnalysisError
from nest import Violation

SRC = "liblj92/lj92.c"


def settle(rep, a, go, rule, construct):
    """run an analysis; a violation on a path whose conditions were all decided counts, anything else undecided does
    not"""
    try:
        go()
        ok, why = True, ""
    except Violation as e:
        ok, why = False, str(e)
    if ok and getattr(a, "undecided", None) and (a.violations or not getattr(a, "opaque", False)):
        raise AnalysisError("%s: %s" % (construct, a.undecided if a.undecided is not True else "unknown condition"))
    if ok and a.violations:
        raise AnalysisError("%s: %s" % (construct, a.violations[0]))
    rep.check(ok, rule, construct, why)
    return ok


def bits(rep, hb):
    d = lj.NextDiff(hb)
    if settle(rep, d, d.explore_all, "difference", SRC + ":nextdiff"):
        rep.checked["difference"] = d.done
        rep.samples.append("code tables of %d bits, pending bits %s: every class, every used length" % (
            hb, "%d..%d" % (min(d.entries), max(d.entries))))
    rep.stats["states"] = rep.stats.get("states", 0) + d.states
    rep.stats["instructions_interpreted"] = rep.stats.get("instructions_interpreted", 0) + d.ops


def nest_run(rep, d, lin, rule, construct, what):
    if settle(rep, d, lambda: d.run(d.starts(lin)), rule, construct):
        rep.checked[rule] = d.obl
        rep.samples.append("%s: %d loop-header classes with affine invariants, %d paths" % (what, len(d.inv), d.paths))
    rep.stats["classes"] = rep.stats.get("classes", 0) + len(d.inv)
    rep.stats["paths"] = rep.stats.get("paths", 0) + d.paths


def decode(rep, pred, many, lin):
    d = lj.Decoder(pred, many, lin)
    nest_run(rep, d, lin, "sample", SRC + ":lj92_decode", "predictor %d, %s, %s" % (
        pred, "several components" if many else "one component", "with a table" if lin else "no table"))


def encode(rep, fname, lin):
    d = lj.Encoder(fname, lin)
    nest_run(rep, d, lin, "class", SRC + ":" + fname, "%s, %s" % (fname, "with a table" if lin else "no table"))


def emitted(seeds, lengths):
    """explore writeBody's bits for some lengths of codes"""
    m = lj.Emit(seeds)
    m.lengths = lengths
    out = {"bad": None, "error": None}
    try:
        m.explore_all()
        if m.undecided:
            out["error"] = "unknown condition"
    except Violation as e:
        out["bad"] = str(e)
    except AnalysisError as e:
        out["error"] = str(e)
    out.update(states=m.states, ops=m.ops, done=m.done, bytes=m.bytes, lookups=sorted(m.lookups))
    return out


def emit(rep):
    """every length of codes in its own process; together they are closed when they reach the same lookups"""
    e, seeds = lj.seeds()
    if not seeds or not all({k[0] for k in d.values()} >= {"E", "class"} for d in seeds.values()):
        raise AnalysisError("the class lookup of writeBody was not found")
    groups = [[h for h in range(1, 17) if h % 8 == i] for i in range(8)]
    procs = []
    for g in groups:
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            os.close(r)
            try:
                out = emitted(seeds, g)
            except BaseException as x:
                out = {"bad": None, "error": repr(x), "states": 0, "ops": 0, "done": 0, "bytes": 0, "lookups": []}
            with os.fdopen(w, "w") as f:
                json.dump(out, f)
            os._exit(0)
        os.close(w)
        procs.append((g, pid, r))
    res = []
    for g, pid, r in procs:
        with os.fdopen(r) as f:
            res.append((g, json.load(f)))
        os.waitpid(pid, 0)
    if not any(o["bad"] or o["error"] for _, o in res) and len({tuple(o["lookups"]) for _, o in res}) > 1:
        res = [(list(range(1, 17)), emitted(seeds, range(1, 17)))]
    bad = [o["bad"] for _, o in res if o["bad"]]
    err = [o["error"] for _, o in res if o["error"]]
    if err and not bad:
        raise AnalysisError(err[0])
    rep.check(not bad, "bits", SRC + ":writeBody", bad[0] if bad else "")
    if not bad:
        rep.checked["bits"] = sum(o["done"] for _, o in res)
        rep.samples.append("%d states at the lookups, the same for all code lengths; %d stores of bytes" % (
            len(res[0][1]["lookups"]), sum(o["bytes"] for _, o in res)))
    for k in ("states", "ops"):
        rep.stats[k] = sum(o[k] for _, o in res)


def glue(rep, what):
    import ljglue
    c, rule, fn = {"header": (ljglue.Header, "header", "writeHeader"), "encode": (ljglue.Encode, "phases", "lj92_encode"),
                   "open": (ljglue.Open, "frame", "lj92_open"), "frame": (ljglue.Frame, "frame", "parseSof3")}[what]
    d = c()
    if settle(rep, d, d.run, rule, "%s:%s" % (SRC, fn)):
        rep.checked[rule] = d.done
    rep.stats["states"] = rep.stats.get("states", 0) + d.states


def tables(rep, which):
    import tab
    c, rule, fn = {"lookup": (tab.Lookup, "entry", "parseHuff"), "codes": (tab.Codes, "code", "createEncodeTable")}[which]
    d = c()
    if settle(rep, d, d.run, rule, "%s:%s" % (SRC, fn)):
        rep.checked[rule] = d.obl
        rep.samples.append("%s: %d blocks interpreted with a ghost walk of the canonical code" % (fn, d.blocks))
    rep.stats["blocks_interpreted"] = rep.stats.get("blocks_interpreted", 0) + d.blocks


def bytes_(rep, what):
    """lj92_open, lj92_decode or lj92_close on any bytes"""
    import safe
    d = safe.Open(what == "segments") if what in ("open", "segments") else safe.Rest(what)
    d.explore()
    mine = ("segment", "refused") if what == "segments" else ("data", "null", "heap", "free", "leak", "handle", "usable")
    n = 0
    for rule, why, at, unk in sorted(set(d.found)):
        if rule in mine and not unk:
            n += 1
            rep.check(False, rule, SRC + ":" + d.f.name, why + (" at " + at if at else ""))
    if n == 0:
        for rule, why, at, unk in sorted(set(d.found)):
            if rule in mine:
                raise AnalysisError("%s at %s, behind a condition that is not followed" % (why, at))
        for rule in mine:
            k = len([1 for r, _ in d.sites if r == rule])
            if k:
                rep.checked[rule] = rep.checked.get(rule, 0) + k
        if what == "segments":
            rep.checked["segment"] = sum(d.segments.values())
            rep.checked["refused"] = sum(v for k, v in d.returns.items() if k)
        rep.samples.append("%s: %d loop-header classes, invariants inductive after %d rounds, %d paths, %d obligations" % (
            d.f.name, len(d.inv), d.rounds, d.paths, d.obl))
    for k, v in (("classes", len(d.inv)), ("paths", d.paths), ("obligations_entailed", d.obl),
                 ("instructions_interpreted", d.steps)):
        rep.stats[k] = rep.stats.get(k, 0) + v
