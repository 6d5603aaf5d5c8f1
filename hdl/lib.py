"""Shared helpers of the hardware checks."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
if HERE not in sys.path:
    sys.path.insert(0, HERE)

from ir import Design, AnalysisError, ElabError, loc
import absint as AI
from absint import (Ctx, Env, cases, word, var, const_word, neg, form_of, fadd, fscale, bits_of,
                    bits_str, reset_state, survives, ext, b_and, b_or, NOSPLIT)

MIGEN = os.path.join(REPO, "migen_src")


def module(name):
    if MIGEN not in sys.path:
        sys.path.insert(0, MIGEN)
    path = os.path.join(MIGEN, name + ".py")
    if not os.path.exists(path):
        raise AnalysisError("anchor vanished: %s" % path)
    try:
        return importlib.import_module(name)
    except Exception as e:
        raise AnalysisError("cannot import %s: %s: %s" % (name, type(e).__name__, e))


def make(modname, clsname, *args):
    """Instantiate a repository module (the repository's own constructor)."""
    m = module(modname)
    if not hasattr(m, clsname):
        raise AnalysisError("anchor vanished: class %s in migen_src/%s.py" % (clsname, modname))
    try:
        return getattr(m, clsname)(*args)
    except AnalysisError:
        raise
    except AssertionError:
        raise
    except Exception as e:
        raise ElabError("%s.%s%r: %s: %s" % (modname, clsname, args, type(e).__name__, e))


def make_cfg(modname, clsname, config):
    c = module("constraints").Constraints()
    return make(modname, clsname, dict(config), c)


def attr(obj, path):
    """obj.a.b[2].c with an anchor-vanished error"""
    cur = obj
    for p in path.split("."):
        name, idx = (p[:-1].split("[") + [None])[:2] if p.endswith("]") else (p, None)
        if not hasattr(cur, name):
            raise AnalysisError("anchor vanished: %s has no attribute %s (of %s)"
                                % (type(cur).__name__, name, path))
        cur = getattr(cur, name)
        if idx is not None:
            cur = cur[int(idx)]
    return cur


class Rep:
    """Collects the obligations and findings of one unit of analysis."""

    def __init__(self, unit):
        self.unit = unit
        self.checked = {}
        self.bad = []
        self.notes = []
        self.stats = {}
        self.samples = []

    def count(self, rule, n=1):
        self.checked[rule] = self.checked.get(rule, 0) + n

    def fail(self, rule, construct, detail):
        if len(self.bad) < 40:
            for b in self.bad:
                if b["rule"] == rule and b["construct"] == construct:
                    return
            self.bad.append({"rule": rule, "construct": construct, "detail": detail,
                             "unit": self.unit})

    def check(self, ok, rule, construct, detail=""):
        self.count(rule)
        if not ok:
            self.fail(rule, construct, detail() if callable(detail) else detail)
        return bool(ok)

    def stat(self, design):
        for k, v in design.stats().items():
            self.stats[k] = self.stats.get(k, 0) + v

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)


def eqw(env, a, b, depth=0):
    """abstract words equal under the partition (refined by further case distinctions when the two
    are written differently)"""
    if len(a) != len(b):
        return False
    hard = None
    for x, y in zip(a, b):
        if x is y or x == y:
            continue
        x, y = env.sub(x), env.sub(y)
        if x is y:
            continue
        cx, cy = x in (0, 1), y in (0, 1)
        if cx and cy:
            if x == y:
                continue
            return False
        if (cx or plain(x)) and (cy or plain(y)):
            return False
        if hard is None:
            hard = x if not (cx or plain(x)) else y
    if hard is None:
        return True
    if depth > 10:
        return False
    leaf = env.leaf(hard)
    for v in (0, 1):
        f = dict(env.facts)
        f[leaf] = v
        if not eqw(Env(f), a, b, depth + 1):
            return False
    return True


def plain(x):
    return x.kind == "v" or (x.kind == "n" and x.key.kind == "v")


def facts_str(env):
    return ", ".join("%r=%d" % (n, v) for n, v in sorted(env.facts.items(), key=lambda t: t[0].id)) \
        or "always"


def sym_state(regs, tag="s"):
    """arbitrary register contents"""
    return {id(s): word("%s:%s#%d" % (tag, s.name, i), s.width) for i, s in enumerate(regs)}


class Mod:
    """A design with named ports, for transfer-function obligations."""

    def __init__(self, top, outs, ins, cut=(), rep=None):
        self.top = top
        self.design = Design(top, cut)
        if rep is not None:
            rep.stat(self.design)
        self.ins = dict(ins)
        self.outs = dict(outs)
        for n, s in self.ins.items():
            if id(s) in self.design.drivers and not self.design.is_cut(s):
                raise AnalysisError("input %s of %s is driven inside it" % (n, type(top).__name__))

    def regs(self, outs=None):
        return self.design.regs([s for n, s in self.outs.items() if outs is None or n in outs])

    def ctx(self, state, inputs, env):
        return Ctx(self.design, state, {id(self.ins[n]): b for n, b in inputs.items()}, env)

    def step(self, ctx, regs):
        return {id(s): ctx.next(s) for s in regs}

    def where(self, name):
        return self.design.where(self.outs[name])


def file_of(obj):
    return "migen_src/" + os.path.basename(sys.modules[type(obj).__module__].__file__)


def cname(obj, port=None):
    return "%s:%s%s" % (file_of(obj), type(obj).__name__, "." + port if port else "")


# ---- running units of a property in separate processes -----------------------------
def run_units(units, jobs=8):
    """units: list of (name, fn, args). Every unit runs in a fresh forked process."""
    results, running, queue = [], {}, list(units)
    while queue or running:
        while queue and len(running) < jobs:
            name, fn, args = queue.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                out = {"unit": name}
                t0 = time.time()
                try:
                    rep = Rep(name)
                    mod, _, f = fn.rpartition(".")
                    getattr(importlib.import_module(mod), f)(rep, *args)
                    out.update(checked=rep.checked, bad=rep.bad, notes=rep.notes,
                               stats=rep.stats, samples=rep.samples)
                except AnalysisError as e:
                    out["error"] = "analysis: %s" % e
                except ElabError as e:
                    out["error"] = "elaboration: %s" % e
                except BaseException:
                    out["error"] = traceback.format_exc()
                out["wall"] = round(time.time() - t0, 2)
                data = json.dumps(out, default=str).encode()
                with os.fdopen(w, "wb") as f:
                    f.write(data)
                os._exit(0)
            os.close(w)
            running[pid] = (name, r, [])
        # drain
        import select
        fds = {v[1]: pid for pid, v in running.items()}
        rl, _, _ = select.select(list(fds), [], [], 5)
        for fd in rl:
            pid = fds[fd]
            chunk = os.read(fd, 1 << 20)
            if chunk:
                running[pid][2].append(chunk)
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            name, _, chunks = running.pop(pid)
            try:
                results.append(json.loads(b"".join(chunks).decode()))
            except ValueError:
                results.append({"unit": name, "error": "unit died without a result"})
    results.sort(key=lambda r: r["unit"])
    return results
