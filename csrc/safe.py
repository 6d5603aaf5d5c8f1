"""liblj92 on arbitrary bytes: every path of lj92_open between two loop headers is interpreted over linear forms of
unknown integers with linear facts (forms >= 0).  A loop header has one class for every shape of its pointers; a class
keeps what is the same on every arrival, a symbol for every location that differs, and the candidate facts (those of
the first arrival, bounds and differences of the changed locations) that every arrival entails: the largest inductive
subset, by repetition until nothing is dropped.  Entailment is rational Fourier-Motzkin with integer rounding; nothing
is run and no solver is asked."""
from math import gcd

import nest
from nest import Violation
from lib import AnalysisError

MARK = {0xC4: "a table", 0xC3: "a frame", 0xD9: "the end", 0xDA: "a scan"}


# ---- forms: (constant, ((symbol, coefficient), ...)) with symbols as strings
def form(c, d):
    return (c, tuple(sorted((s, k) for s, k in d.items() if k)))


def con(c):
    return (c, ())


def sym(s, k=1, c=0):
    return (c, ((s, k),))


def add(a, b, k=1):
    d = dict(a[1])
    for s, q in b[1]:
        d[s] = d.get(s, 0) + k * q
    return form(a[0] + k * b[0], d)


def scale(a, k):
    return (a[0] * k, tuple((s, q * k) for s, q in a[1])) if k else con(0)


def subst(a, m):
    if not any(s in m for s, _ in a[1]):
        return a
    r = con(a[0])
    for s, k in a[1]:
        r = add(r, m[s] if s in m else sym(s), k)
    return r


def rename(a, m):
    if not any(s in m for s, _ in a[1]):
        return a
    d = {}
    for s, k in a[1]:
        s = m.get(s, s)
        d[s] = d.get(s, 0) + k
    return form(a[0], d)


def tight(f):
    g = 0
    for _, k in f[1]:
        g = gcd(g, abs(k))
    return f if g <= 1 else (f[0] // g, tuple((s, k // g) for s, k in f[1]))


def show(f):
    out = ["%s%s" % ("" if k == 1 else "-" if k == -1 else "%d*" % k, s) for s, k in f[1]]
    if f[0] or not out:
        out.append(str(f[0]))
    return " + ".join(out).replace("+ -", "- ")


def infeasible(fs):
    """do the facts contradict each other?"""
    fs = {tight(f) for f in fs}
    while True:
        best = {}
        for f in fs:
            if not f[1]:
                if f[0] < 0:
                    return True
                continue
            if f[1] not in best or f[0] < best[f[1]]:
                best[f[1]] = f[0]
        fs = {(c, v) for v, c in best.items()}
        if not fs:
            return False
        occ = {}
        for f in fs:
            for s, k in f[1]:
                p = occ.setdefault(s, [0, 0])
                p[k < 0] += 1
        s = min(occ, key=lambda x: (occ[x][0] * occ[x][1] - sum(occ[x]), x))
        pos = [f for f in fs if dict(f[1]).get(s, 0) > 0]
        neg = [f for f in fs if dict(f[1]).get(s, 0) < 0]
        fs = {f for f in fs if s not in dict(f[1])}
        for p in pos:
            for n in neg:
                a, b = dict(p[1])[s], -dict(n[1])[s]
                fs.add(tight(add(scale(p, b), scale(n, a))))
        if len(fs) > 3000:
            return False


class State:
    __slots__ = ("env", "cells", "facts", "ne", "bytes", "objs", "wrote", "g", "unk", "oom", "loop",
                 "deriv")

    def __init__(self):
        self.env, self.cells, self.facts, self.ne, self.bytes, self.objs = {}, {}, set(), set(), {}, {}
        self.wrote, self.g, self.unk, self.oom, self.loop = frozenset(), con(0), False, False, False
        self.deriv = {}                                        # symbol: (byte, its value for each of the byte's)

    def copy(self):
        s = State()
        s.env, s.cells, s.facts, s.ne = dict(self.env), dict(self.cells), set(self.facts), set(self.ne)
        s.bytes, s.objs, s.deriv = dict(self.bytes), dict(self.objs), dict(self.deriv)
        s.wrote, s.g, s.unk, s.oom, s.loop = self.wrote, self.g, self.unk, self.oom, self.loop
        return s

    def each(self, f):
        """apply f to every form"""
        def val(v):
            if v is None:
                return None
            if v[0] == "i":
                return ("i", f(v[1]))
            if v[0] == "p":
                return ("p", v[1], f(v[2]))
            return ("c", cmap(v[1], f))
        self.env = {k: val(v) for k, v in self.env.items()}
        self.cells = {k: val(v) for k, v in self.cells.items()}
        self.facts = {f(x) for x in self.facts}
        self.ne = {f(x) for x in self.ne}
        self.bytes = {f(a): s for a, s in self.bytes.items()}
        self.objs = {n: (l, None if z is None else f(z)) for n, (l, z) in self.objs.items()}
        self.g = f(self.g)


def cmap(c, f):
    if c is None or c is True or c is False:
        return c
    if c[0] in ("and", "or"):
        return (c[0], cmap(c[1], f), cmap(c[2], f))
    if c[0] == "not":
        return ("not", cmap(c[1], f))
    return (c[0], f(c[1]))


class Dropped(Exception):
    pass


class Walk:
    """the interpreter; subclasses give the entry state and judge arrivals and returns"""

    def __init__(self, fname, noinline=("nextdiff",)):
        self.m = nest.module(noinline)
        if fname not in self.m.funcs:
            raise AnalysisError("%s is not there" % fname)
        self.f = self.m.funcs[fname]
        self.Ty = self.m.types
        self.rng = {}
        nest.Nest.cfg(self)
        self.loops()
        self.inv = {}
        self.obl = self.paths = self.rounds = self.steps = 0
        self.sites = set()
        self.found = []
        self.violations, self.undecided, self.opaque = [], None, True

    def loops(self):
        pred = {}
        for b, ss in self.succ.items():
            for s in ss:
                pred.setdefault(s, []).append(b)
        self.body = {}
        for h in self.heads:
            seen, todo = {self.f.order[0]}, [self.f.order[0]]      # what is reached without h
            if h in seen:
                seen, todo = set(), []
            while todo:
                for s in self.succ[todo.pop()]:
                    if s not in seen and s != h:
                        seen.add(s)
                        todo.append(s)
            body = {h}
            todo = [t for t in pred.get(h, ()) if t not in seen]
            while todo:
                x = todo.pop()
                if x not in body:
                    body.add(x)
                    todo += pred.get(x, ())
            self.body[h] = body
        self.outer = max(self.heads, key=lambda h: (len(self.body[h]), -self.f.order.index(h))) if self.heads else None

    def where(self, I):
        return self.m.where(I)

    # ---- facts
    def needed(self, st, fs):
        """the facts connected with fs"""
        want = {s for f in fs for s, _ in f[1]}
        out, rest = list(fs), list(st.facts)
        ch = True
        while ch:
            ch = False
            keep = []
            for f in rest:
                if any(s in want for s, _ in f[1]):
                    out.append(f)
                    for s, _ in f[1]:
                        if s not in want:
                            want.add(s)
                            ch = True
                else:
                    keep.append(f)
            rest = keep
        for s in want:
            lo, hi = self.rng.get(s.rstrip("'"), (None, None))
            if lo is not None:
                out.append(sym(s, 1, -lo))
            if hi is not None:
                out.append(sym(s, -1, hi))
        return out

    def entails(self, st, f):
        if not f[1]:
            return f[0] >= 0
        return infeasible(self.needed(st, [add(con(-1), f, -1)]))

    def zero(self, st, f):
        return f == con(0) or bool(f[1]) and self.entails(st, f) and self.entails(st, scale(f, -1))

    def nonzero(self, st, f):
        if not f[1]:
            return f[0] != 0
        if f in st.ne or scale(f, -1) in st.ne:
            return True
        return self.entails(st, add(f, con(-1))) or self.entails(st, add(scale(f, -1), con(-1)))

    def assume(self, st, f):
        """st with f >= 0, or None"""
        if not f[1]:
            return st if f[0] >= 0 else None
        if infeasible(self.needed(st, [f])):
            return None
        # a bound that an inequality sharpens
        n = scale(f, -1)
        while f in st.ne or scale(f, -1) in st.ne:
            if not self.entails(st, n):
                break
            return None
        st.facts.add(tight(f))
        return st

    def fork(self, st, c):
        """[(state, outcome)] of a condition"""
        if c is None:
            a, b = st.copy(), st
            a.unk = b.unk = True
            return [(a, True), (b, False)]
        if c is True or c is False:
            return [(st, c)]
        if c[0] == "not":
            return [(s, not v) for s, v in self.fork(st, c[1])]
        if c[0] in ("and", "or"):
            out = []
            for s, v in self.fork(st, c[1]):
                if v == (c[0] == "or"):
                    out.append((s, v))
                else:
                    out += self.fork(s, c[2])
            return out
        f = c[1]
        if c[0] == "ge":
            out = []
            a = self.assume(st.copy(), f)
            if a is not None:
                out.append((a, True))
            b = self.assume(st, add(con(-1), f, -1))
            if b is not None:
                out.append((b, False))
            return out
        # eq
        if len(f[1]) == 1 and f[1][0][0] in st.deriv and abs(f[1][0][1]) == 1:
            return self.choose(st, f)
        out = []
        if not (f in st.ne or scale(f, -1) in st.ne):
            a = self.assume(st.copy(), f)
            a = a and self.assume(a, scale(f, -1))
            if a is not None:
                out.append((a, True))
        if not self.zero(st, f):
            st.ne.add(f)
            for g in (f, scale(f, -1)):                        # at the edge of its range
                if self.entails(st, g):
                    st.facts.add(add(g, con(-1)))
            out.append((st, False))
        return out

    def choose(self, st, f):
        """a condition on a function of one byte is one on the byte"""
        (s, k), = f[1]
        b, tab = st.deriv[s]
        yes = [v for v in range(256) if tab[v] == -f[0] * k]
        out = []
        for vals, t in ((yes, True), ([v for v in range(256) if v not in set(yes)], False)):
            if not vals:
                continue
            a = self.assume(st.copy(), sym(b, 1, -vals[0]))
            a = a and self.assume(a, sym(b, -1, vals[-1]))
            if a is None:
                continue
            a.ne |= {sym(b, 1, -v) for v in range(vals[0], vals[-1]) if v not in set(vals)}
            if all(self.nonzero(a, sym(b, 1, -v)) for v in vals):
                continue
            out.append((a, t))
        return out

    def derive(self, st, I, a, b):
        """a byte and a constant"""
        o = I.op
        if not b[1]:
            x, c = a, b[0]
        elif not a[1] and o in ("and", "or", "xor"):
            x, c = b, a[0]
        else:
            return None
        if len(x[1]) != 1 or x[1][0][1] != 1:
            return None
        s = x[1][0][0]
        if s in st.deriv:
            base, tab = st.deriv[s]
        elif s.startswith("byte@"):
            base, tab = s, list(range(256))
        else:
            return None
        tab = [v + x[0] for v in tab]
        if min(tab) < 0 or c == 0 and o in ("udiv", "sdiv", "urem", "srem"):
            return None
        fn = {"and": lambda v: v & c, "or": lambda v: v | c, "xor": lambda v: v ^ c, "lshr": lambda v: v >> c,
              "ashr": lambda v: v >> c, "udiv": lambda v: v // c, "sdiv": lambda v: v // c,
              "urem": lambda v: v % c, "srem": lambda v: v % c}.get(o)
        if fn is None or c < 0 and o != "and":
            return None
        tab = [fn(v) for v in tab]
        if len(set(tab)) == 1:
            return ("i", con(tab[0]))
        n = "fn@%s" % I.res
        r = self.fresh(st, n, min(tab), max(tab))
        # the byte may have got its name from an instruction in the same place
        st.deriv[n] = (base, tab)
        return ("i", r)

    def fresh(self, st, name, lo=None, hi=None):
        """a symbol for a new value; an older one of this name gets another"""
        self.rng[name.rstrip("'")] = (lo, hi)
        used = set()

        def look(f):
            used.update(s for s, _ in f[1])
            return f
        st.each(look)
        used |= set(st.bytes.values())
        m, s = {}, name
        while s in used:
            m[s] = s + "'"
            s += "'"
        if m:
            if len(m) > 6:
                raise AnalysisError("too many old values of %s" % name)
            st.each(lambda f: rename(f, m))
            st.bytes = {a: m.get(s, s) for a, s in st.bytes.items()}
            st.deriv = {m.get(s, s): (m.get(b, b), t) for s, (b, t) in st.deriv.items()}
        return sym(name)

    # ---- values
    def val(self, st, v):
        if v[0] == "reg":
            return st.env.get(v[1])
        if v[0] == "int":
            if v[2] == ("i", 1):
                return ("c", bool(v[1]))
            return ("i", con(v[1]))
        if v[0] == "null":
            return ("p", "null", con(0))
        if v[0] in ("undef", "poison"):
            return None
        if v[0] == "glob":
            return ("p", "glob:" + v[1], con(0))
        if v[0] in ("true", "false"):
            return ("c", v[0] == "true")
        return None

    def size(self, ty):
        return self.Ty.size(ty)

    def bad(self, st, rule, why, I):
        self.found.append((rule, why, self.where(I) if I is not None else "", st.unk))

    def need(self, st, rule, f, why, I):
        self.obl += 1
        self.sites.add((rule, self.where(I)))
        if not self.entails(st, f):
            self.bad(st, rule, why, I)

    def access(self, st, p, n, I, write):
        if p is None:
            raise AnalysisError("an unknown address at %s" % self.where(I))
        o = p[1]
        if o == "null":
            self.bad(st, "null", "a null pointer is used", I)
            return False
        if o == "data":
            if write:
                self.bad(st, "data", "the data are written", I)
                return False
            self.need(st, "data", p[2], "a byte before the data may be read (offset %s)" % show(p[2]), I)
            self.need(st, "data", add(add(self.datalen(), p[2], -1), con(-n)),
                      "a byte behind the data may be read (offset %s)" % show(p[2]), I)
            return True
        if o not in st.objs:
            return True
        live, z = st.objs[o]
        self.obl += 1
        self.sites.add(("heap", self.where(I)))
        if not live:
            self.bad(st, "heap", "memory is used after it was freed", I)
            return False
        if o == "self" and self.room is not None:
            self.need(st, "heap", p[2], "memory before the decoder's state may be used", I)
            self.need(st, "heap", add(con(self.room - n), p[2], -1), "memory behind the decoder's state may be used", I)
        if z is None and o != "self" and write:
            raise AnalysisError("a store into memory of unknown size at %s" % self.where(I))
        if z is not None:
            self.need(st, "heap", p[2], "memory before the table may be used (offset %s)" % show(p[2]), I)
            self.need(st, "heap", add(add(z, p[2], -1), con(-n)),
                      "memory behind the table may be used (offset %s of %s)" % (show(p[2]), show(z)), I)
        return True

    def load(self, st, I):
        p, n = self.val(st, I.args[0]), self.size(I.ty)
        ty = self.Ty.resolve(I.ty)
        if not self.access(st, p, n, I, False):
            return None
        if p[1] == "data":
            if n != 1:
                return None
            if p[2] in st.bytes:
                return ("i", sym(st.bytes[p[2]]))
            a = p[2]
            name = "byte@%s" % I.res
            v = self.fresh(st, name, 0, 255)
            p = self.val(st, I.args[0])                        # its form may have been renamed
            st.bytes[p[2]] = name
            return ("i", v)
        if p[1] in self.fields and not p[2][1]:
            k = (p[1], p[2][0])
            if k in st.cells:
                return st.cells[k]
            if p[1] == "self" and self.zeroed:
                return ("p", "null", con(0)) if ty[0] == "ptr" else ("i", con(0))
            return None
        return None

    def store(self, st, I):
        v, p = self.val(st, I.args[0]), self.val(st, I.args[1])
        n = self.size(I.ty)
        if not self.access(st, p, n, I, True):
            return
        if p[1] in self.fields:
            if p[2][1]:
                raise AnalysisError("a store at an unknown place of %s at %s" % (p[1], self.where(I)))
            for k in [k for k in st.cells if k[0] == p[1] and p[2][0] < k[1] + 8 and k[1] < p[2][0] + n
                      and k[1] != p[2][0] and self.overlap(k, p[2][0], n)]:
                del st.cells[k]
            st.cells[(p[1], p[2][0])] = v
            if p[1] == "self":
                st.wrote |= {p[2][0]}

    def overlap(self, k, o, n):
        w = self.width.get(k[1], 4)
        return k[1] < o + n and o < k[1] + w

    def gep(self, st, I):
        vs = [self.val(st, v) for _, v in I.args]
        p = vs[0]
        if p is None or p[0] != "p":
            return None
        off, cur = p[2], I.ty
        for i, v in enumerate(vs[1:]):
            if i:
                r = self.Ty.resolve(cur)
                if r[0] == "struct":
                    o, cur = self.Ty.field(r, v[1][0])
                    off = add(off, con(o))
                    continue
                cur = r[2]
            if v is None or v[0] != "i":
                return None
            off = add(off, v[1], self.size(cur))
        return ("p", p[1], off)

    def binop(self, st, I, a, b):
        o = I.op
        ty = self.Ty.resolve(I.ty)
        if ty == ("i", 1):
            ca, cb = a and a[1], b and b[1]
            if o in ("and", "or"):
                return ("c", (o, ca, cb)) if a and b else ("c", None)
            if o == "xor" and cb is True:
                return ("c", ("not", ca))
            return ("c", None)
        if o == "sub" and a and b and a[0] == b[0] == "p" and a[1] == b[1]:
            return ("i", add(a[2], b[2], -1))
        if a is None or b is None or a[0] != "i" or b[0] != "i":
            return None
        a, b = a[1], b[1]
        r = self.derive(st, I, a, b) if o not in ("add", "sub", "mul", "shl") else None
        if r is not None:
            return r
        if o == "add":
            return ("i", add(a, b))
        if o == "sub":
            return ("i", add(a, b, -1))
        if o == "mul":
            if not a[1]:
                return ("i", scale(b, a[0]))
            if not b[1]:
                return ("i", scale(a, b[0]))
            x, y = sorted((show(a), show(b)))
            return ("i", sym("(%s)*(%s)" % (x, y)))
        if o == "shl":
            if not b[1] and 0 <= b[0] < 31:
                return ("i", scale(a, 1 << b[0]))
            if a[0] > 0 and not a[1] and self.entails(st, b) and self.entails(st, add(con(29), b, -1)):
                return ("i", scale(self.power(b), a[0]))
            return None
        if o in ("or", "add", "xor"):
            for x, y in ((a, b), (b, a)):
                lo, hi = self.bounds(y)
                if lo is not None and hi is not None and lo >= 0:
                    k = hi.bit_length()
                    if x[0] % (1 << k) == 0 and all(q % (1 << k) == 0 for _, q in x[1]):
                        return ("i", add(x, y))
            return None
        if o == "and" and not b[1] and b[0] >= 0 and (b[0] & (b[0] + 1)) == 0:
            if self.entails(st, a) and self.entails(st, add(b, a, -1)):
                return ("i", a)
            return ("i", self.fresh(st, "and@%s" % I.res, 0, b[0]))
        if o in ("lshr", "ashr", "udiv", "sdiv") and not b[1] and b[0] > 0:
            k = 1 << b[0] if o in ("lshr", "ashr") else b[0]
            if k < 1 << 31 and self.entails(st, a):
                n = "q@%s" % I.res
                q = self.fresh(st, n, 0, None)
                a = self.val(st, I.args[0])[1]
                st.facts.add(add(a, q, -k))
                st.facts.add(add(add(q, con(1)), con(0)) if False else add(scale(q, k), add(a, con(-k + 1), 1), -1))
                return ("i", q)
        return None

    def power(self, b):
        n = "1<<(%s)" % show(b)
        self.rng[n] = (1, None)
        if not b[1]:
            return con(1 << b[0])
        return sym(n)

    def bounds(self, f):
        lo = hi = f[0]
        for s, k in f[1]:
            a, b = self.rng.get(s.rstrip("'"), (None, None))
            if k < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + k * a
            hi = None if hi is None or b is None else hi + k * b
        return lo, hi

    def icmp(self, st, I, a, b):
        p = I.x.split()[-1] if isinstance(I.x, str) else I.x
        if a and b and a[0] == b[0] == "p":
            if p in ("eq", "ne"):
                if a[1] == b[1]:
                    c = ("eq", add(a[2], b[2], -1))
                    c = (c[1][0] == 0) if not c[1][1] else c
                else:
                    c = False
                return ("c", c if p == "eq" else ("not", c))
            if a[1] != b[1]:
                return ("c", None)
            a, b, p = ("i", a[2]), ("i", b[2]), "s" + p[1:]
        if a and b and a[0] == b[0] == "c" and p in ("eq", "ne"):
            if b[1] in (True, False):
                return ("c", a[1] if (b[1] is True) == (p == "eq") else ("not", a[1]))
            return ("c", None)
        if not (a and b and a[0] == b[0] == "i"):
            return ("c", None)
        a, b = a[1], b[1]
        if p[0] == "u":
            if not (self.entails(st, a) and self.entails(st, b)):
                if not b[1] and b[0] >= 0 and p in ("ult", "ule", "ugt", "uge"):
                    # 0 <= a and a < b in one
                    c = ("and", ("ge", a), ("ge", add(add(b, a, -1), con(-1 if p in ("ult", "uge") else 0))))
                    return ("c", c if p in ("ult", "ule") else ("not", c))
                return ("c", None)
            p = "s" + p[1:]
        d = add(a, b, -1)
        if p in ("eq", "ne"):
            c = d[0] == 0 if not d[1] else ("eq", d)
            return ("c", c if p == "eq" else ("not", c))
        f = {"sge": d, "sgt": add(d, con(-1)), "sle": scale(d, -1), "slt": add(con(-1), d, -1)}[p]
        return ("c", f[0] >= 0 if not f[1] else ("ge", f))

    def cast(self, st, I, v):
        src, dst = self.Ty.resolve(I.x), self.Ty.resolve(I.ty)
        if v is None or v[0] == "p" and src[0] == "ptr" or I.op in ("freeze", "bitcast"):
            return v
        if v[0] == "p":
            return v if I.op != "trunc" else None
        if v[0] == "c":
            if I.op == "trunc":
                return v
            return None
        if I.op == "sext":
            return v
        if I.op == "zext":
            if self.entails(st, v[1]):
                return v
            return None
        hi = (1 << dst[1]) - 1
        if dst == ("i", 1):
            return ("c", None)
        half = con(1 << dst[1] - 1)
        if dst[1] >= 32 and self.entails(st, add(v[1], half)) and self.entails(st, add(add(half, v[1], -1), con(-1))):
            return v
        if self.entails(st, v[1]) and self.entails(st, add(con(hi), v[1], -1)):
            return v
        return None

    def inst(self, st, I):
        """the states after I"""
        o = I.op
        self.steps += 1
        if o == "load":
            v = self.load(st, I)
            st.env[I.res] = v
        elif o == "store":
            self.store(st, I)
        elif o == "getelementptr":
            st.env[I.res] = self.gep(st, I)
        elif o == "icmp":
            st.env[I.res] = self.icmp(st, I, self.val(st, I.args[0]), self.val(st, I.args[1]))
        elif o in ("sext", "zext", "trunc", "freeze", "bitcast", "ptrtoint"):
            v = self.val(st, I.args[0])
            if v and v[0] == "c" and o != "trunc" and o != "freeze":
                out = []
                for s, t in self.fork(st, v[1]):
                    s.env[I.res] = ("i", con((1 if o == "zext" else -1) if t else 0))
                    out.append(s)
                return out
            st.env[I.res] = self.cast(st, I, v)
        elif o == "select":
            c, a, b = I.args[:3]
            c = self.val(st, c)
            out = []
            for s, t in self.fork(st, c and c[1]):
                s.env[I.res] = self.val(s, a if t else b)
                out.append(s)
            return out
        elif o == "call":
            if I.x[0] != "glob":
                raise AnalysisError("call through a pointer at %s" % self.where(I))
            return self.call(st, I.x[1], I)
        elif o == "alloca":
            raise AnalysisError("a local array at %s" % self.where(I))
        elif o in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "sdiv", "urem", "srem"):
            v = self.binop(st, I, self.val(st, I.args[0]), self.val(st, I.args[1]))
            st.env[I.res] = v
        else:
            st.env[I.res] = None
        return [st]

    def call(self, st, name, I):
        if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "printf")):
            return [st]
        args = [self.val(st, a[1]) for a in I.args]
        if name in ("calloc", "malloc"):
            z = None
            if all(a and a[0] == "i" for a in args):
                if name == "malloc":
                    z = args[0][1]
                elif not args[1][1][1]:
                    z = scale(args[0][1], args[1][1][0])
                elif not args[0][1][1]:
                    z = scale(args[1][1], args[0][1][0])
            n = self.objname(st, I)
            while n in st.objs and st.objs[n][0]:
                n += "'"
                if n.count("'") > 2:
                    self.bad(st, "leak", "memory is allocated again and again and never freed", I)
                    return []
            for d in (st.env, st.cells):
                for k, v in d.items():
                    if v and v[0] == "p" and v[1] == n:
                        d[k] = ("p", "freed", con(0))
            no = st.copy()
            no.oom = True
            no.env[I.res] = ("p", "null", con(0))
            if n == "self":
                self.zeroed = name == "calloc"
                if z is None or z[1]:
                    raise AnalysisError("the size of the decoder's state at %s" % self.where(I))
                self.room = z[0]
                z = None
            st.objs[n] = (True, z)
            st.env[I.res] = ("p", n, con(0))
            return [st, no]
        if name == "free":
            p = args[0]
            self.obl += 1
            self.sites.add(("free", self.where(I)))
            if p is None:
                raise AnalysisError("an unknown pointer is freed at %s" % self.where(I))
            if p[1] == "null":
                return [st]
            if p[1] not in st.objs or p[2] != con(0):
                self.bad(st, "free", "what is freed was not allocated" if p[1] != "freed" else
                         "memory is freed twice", I)
                return [st]
            if not st.objs[p[1]][0]:
                self.bad(st, "free", "memory is freed twice", I)
                return [st]
            st.objs[p[1]] = (False, st.objs[p[1]][1])
            return [st]
        if name.startswith(("llvm.memset", "memset")):
            p, n = args[0], args[2]
            if p and p[0] == "p" and n and n[0] == "i" and p[1] in st.objs and p[1] not in self.fields:
                if self.access(st, p, 0, I, True) and st.objs[p[1]][1] is not None:
                    self.need(st, "heap", add(add(st.objs[p[1]][1], p[2], -1), n[1], -1),
                              "memory behind the table may be cleared", I)
                return [st]
            if p is None or p[1] not in self.fields or p[2][1] or n is None or n[1][1]:
                raise AnalysisError("memset at %s" % self.where(I))
            for k in [k for k in st.cells if k[0] == p[1] and self.overlap(k, p[2][0], n[1][0])]:
                del st.cells[k]
            return [st]
        return self.other(st, name, args, I)

    def other(self, st, name, args, I):
        raise AnalysisError("call of %s at %s" % (name, self.where(I)))

    def objname(self, st, I):
        return "heap@%s" % I.res

    # ---- exploration
    def explore(self):
        starts = self.entry()
        for self.rounds in range(1, 60):
            self.found, self.changed, self.seen = [], False, set()
            self.todo = []
            for s in starts:
                self.todo.append((s.copy(), self.f.order[0], None, 0))
            while self.todo:
                st, b, prev, n = self.todo.pop()
                self.path(st, b, prev, n)
            if not self.changed:
                break
        else:
            raise AnalysisError("the invariants do not settle")

    def path(self, st, b, prev, depth):
        work = [(st, b, prev, 0)]
        while work:
            st, b, prev, n = work.pop()
            if n > 3000:
                raise AnalysisError("a path without end at block %s" % b)
            blk = self.f.blocks[b]
            vals = []
            for I in blk:
                if I.op != "phi":
                    break
                for v, p in I.args:
                    if p == prev:
                        vals.append((I.res, self.val(st, v)))
                        break
            for r, v in vals:
                st.env[r] = v
            if b in self.heads and self.cut:
                keep = self.live[b] | {r for r, _ in vals}
                st.env = {k: v for k, v in st.env.items() if k in keep}
                st = self.arrive(st, b, prev)
                if st is None:
                    continue
            sts = [st]
            for I in blk[len(vals):]:
                if I.op in ("br", "switch", "ret", "unreachable"):
                    break
                sts = [t for s in sts for t in self.inst(s, I)]
                if not sts:
                    break
            for st in sts:
                if I.op == "ret":
                    self.paths += 1
                    self.ret(st, self.val(st, I.args[0]) if I.args else None, I)
                elif I.op == "br":
                    if len(I.args) == 1:
                        work.append((st, I.args[0], b, n + 1))
                    else:
                        c = self.val(st, I.x)
                        for s, t in self.fork(st, c and c[1]):
                            work.append((s, I.args[0 if t else 1], b, n + 1))
                elif I.op == "switch":
                    v = self.val(st, I.x)
                    rest = [st]
                    for k, t in I.args[1]:
                        nxt = []
                        for s in rest:
                            c = ("eq", add(v[1], con(-k))) if v and v[0] == "i" else None
                            if c and not c[1][1]:
                                c = c[1][0] == 0
                            for q, y in self.fork(s, c):
                                if y:
                                    work.append((q, t, b, n + 1))
                                else:
                                    nxt.append(q)
                        rest = nxt
                    for s in rest:
                        work.append((s, I.args[0], b, n + 1))

    cut = True
    room = None

    # ---- loop headers
    def locs(self, st):
        d = {}
        for k, v in st.env.items():
            d[("r", k)] = v
        for k, v in st.cells.items():
            d[("m",) + k] = v
        for n, (l, z) in st.objs.items():
            if l and z is not None:
                d[("z", n)] = ("i", z)
        d[("g",)] = ("i", st.g)
        return d

    def shape(self, st, d):
        out = []
        for k, v in d.items():
            if v is not None and v[0] == "p":
                out.append((k, v[1]))
            elif v is not None and v[0] == "c":
                out.append((k, repr(v[1]) if v[1] in (True, False) else "c"))
        return (tuple(sorted(out, key=repr)), tuple(sorted((n, l) for n, (l, _) in st.objs.items() if l)),
                tuple(sorted(st.wrote)), st.oom, st.unk, st.loop, self.extra(st))

    def extra(self, st):
        return None

    def arrive(self, st, b, prev):
        self.paths += 1
        self.frontier(st)
        if not self.header(st, b, prev):
            return None
        st.objs = {n: o for n, o in st.objs.items() if o[0]}
        for d in (st.env, st.cells):
            for k, v in d.items():
                if v is not None and v[0] == "p" and v[1] not in st.objs and v[1].startswith("heap"):
                    d[k] = ("p", "freed", con(0))
        d = self.locs(st)
        key = (b, self.shape(st, d))
        # symbols of this class from an earlier arrival are old now
        mine = {}
        for l in d:
            s = self.name(key, l)
            if s in self.rng:
                mine[s] = s
        for s in mine:
            self.fresh(st, s, None, None)
        d = self.locs(st)
        C = self.inv.get(key)
        if C is None:
            if len(self.inv) > 400:
                raise AnalysisError("too many loop classes")
            C = self.inv[key] = {"vals": d, "V": set(), "F": None, "NE": None, "bytes": dict(st.bytes),
                                 "same": {}}
            self.changed = True
        if set(C["vals"]) != set(d):
            # a cell not yet written on one of the arrivals
            for l in set(C["vals"]) ^ set(d):
                if l[0] == "m" and l not in d:
                    d[l] = self.default(l)
                elif l[0] == "m":
                    C["vals"][l] = self.default(l)
                    self.changed = True
                else:
                    raise AnalysisError("values differ at the loop header %s" % b)
        new = set()
        for l, v in d.items():
            w = C["vals"][l]
            if l in C["V"] or v == w:
                continue
            new.add(l)
        if new:
            C["V"] |= new
            C["F"], C["same"] = None, {}
            self.changed = True
        V = C["V"]
        m, names = {}, {}
        # changed locations at constant distances share a symbol
        groups = {}
        for l in sorted(V, key=repr):
            v = d[l]
            f = v[1] if v and v[0] == "i" else v[2] if v and v[0] == "p" else None
            old, delta = C["same"].get(l, (None, f[0] if f else 0))
            groups.setdefault((old, None if f is None else add(f, con(-delta))), []).append((l, f))
        if any(l not in C["same"] for l in V) or len(groups) != len({r for r, _ in C["same"].values()}):
            C["same"] = {}
            for g in groups.values():
                r, rf = g[0]
                for l, f in g:
                    C["same"][l] = (r, 0 if f is None else f[0] - rf[0])
            C["F"] = None
            self.changed = True
        for l in sorted(V, key=repr):
            r, delta = C["same"][l]
            s = self.name(key, r)
            self.rng.setdefault(s, (None, None))
            names[l] = s
            if l == r:
                v = d[l]
                m[s] = v[1] if v and v[0] == "i" else v[2] if v and v[0] == "p" else None
        if C["F"] is None:
            m0 = {}
            for l in V:
                v = C["vals"][l]
                if C["same"][l][0] == l:
                    m0[names[l]] = v[1] if v and v[0] == "i" else v[2] if v and v[0] == "p" else None
            self.candidates(st, C, m, m0)
            self.changed = True
        keep = set()
        for f in C["F"]:
            if any(m.get(s, 0) is None for s, _ in f[1]):
                continue
            if self.entails(st, subst(f, m)):
                keep.add(f)
        kne = set()
        for f in C["NE"]:
            if any(m.get(s, 0) is None for s, _ in f[1]):
                continue
            if self.nonzero(st, subst(f, m)):
                kne.add(f)
        by = {a: s for a, s in C["bytes"].items()
              if (lambda x: x is not None and st.bytes.get(x) == s)(self.trysub(a, m))}
        if len(keep) < len(C["F"]) or len(kne) < len(C["NE"]) or len(by) < len(C["bytes"]):
            C["F"], C["NE"], C["bytes"] = keep, kne, by
            self.changed = True
        if key in self.seen:
            return None
        self.seen.add(key)
        # continue with the class
        s = State()
        s.facts, s.ne, s.bytes = set(C["F"]), set(C["NE"]), dict(C["bytes"])
        s.wrote, s.oom, s.unk, s.loop = st.wrote, st.oom, st.unk, st.loop
        s.objs = {n: (l, z) for n, (l, z) in st.objs.items()}
        for l, v in C["vals"].items():
            if l in V:
                if v is None or d[l] is None or m[names[l]] is None:
                    v = ("c", None) if (v or d[l] or (0,))[0] == "c" else None
                elif v[0] == "i":
                    v = ("i", sym(names[l], 1, C["same"][l][1]))
                else:
                    v = ("p", v[1], sym(names[l], 1, C["same"][l][1]))
            if l[0] == "r":
                s.env[l[1]] = v
            elif l[0] == "m":
                s.cells[l[1:]] = v
            elif l[0] == "z":
                s.objs[l[1]] = (True, v and v[1])
            else:
                s.g = v[1]
        self.rebuild(s)
        return s

    def trysub(self, a, m):
        if any(m.get(s, 0) is None for s, _ in a[1]):
            return None
        return subst(a, m)

    def rebuild(self, st):
        pass

    def default(self, l):
        return ("i", con(0)) if self.width.get(l[2], 4) != 8 else ("p", "null", con(0))

    def name(self, key, l):
        k = (key, l)
        if k not in self.names:
            t = str(l[1]) if l[0] == "r" else "%s[%s]" % (l[1], self.fieldname(l[2])) if l[0] == "m" else \
                "size" if l[0] == "z" else "next"
            self.names[k] = "%s#%d" % (t, len(self.names))
        return self.names[k]

    def fieldname(self, o):
        return str(o)

    names = None

    def candidates(self, st, C, m, m0):
        F = set()
        # the facts of this arrival, with the changed locations for what they are now
        inv, each = {}, []
        for s, f in m.items():
            if f is not None and len(f[1]) == 1 and abs(f[1][0][1]) == 1:
                t, k = f[1][0]
                each.append({t: form(-f[0] * k, {s: k})})
                inv.setdefault(t, form(-f[0] * k, {s: k}))
        each.append(inv)
        for f in st.facts:
            F.add(f)
            F |= {subst(f, i) for i in each}
            for t, g in m.items():
                if g is not None and g[1]:
                    for k in (1, -1):
                        x = add(add(f, g, -k), sym(t), k)
                        if len(x[1]) <= len(f[1]):
                            F.add(x)
        for s, f in list(m.items()) + list(m0.items()):
            if f is None:
                continue
            F |= {sym(s), sym(s, 1, -1), add(sym(s), f, -1), add(f, sym(s), -1)}
            lo, hi = self.bounds(f)
            for q in (m, m0):
                for t, g in q.items():
                    if s != t and g is not None and f[1] == g[1]:
                        x = add(add(sym(s), sym(t), -1), con(f[0] - g[0]), -1)
                        F |= {x, scale(x, -1)}
            # relations with values that stay
            for l, v in C["vals"].items():
                if l not in C["V"] and v is not None and v[0] == "i":
                    e = add(f, v[1], -1)
                    if not e[1] and v[1][1]:
                        x = add(add(sym(s), v[1], -1), con(e[0]), -1)
                        F |= {x, scale(x, -1)}
            if hi is not None:
                F.add(sym(s, -1, hi))
            if lo is not None:
                F.add(sym(s, 1, -lo))
            F |= {add(con(k), add(sym("datalen"), sym(s), -1)) for k in (0, -1, 65535)}
            F |= {sym(s, -1, 65535), sym(s, -1, 255), sym(s, -1, 16), sym(s, -1, 17)}
        live = set(m)
        for l, v in C["vals"].items():
            if l not in C["V"] and v is not None and v[0] in ("i", "p"):
                live |= {s for s, _ in v[-1][1]}
        live |= set(C["bytes"].values()) | set(st.bytes.values())
        C["F"] = {tight(f) for f in F if f[1] and any(s in live for s, _ in f[1])}
        C["NE"] = {f for g in st.ne for f in (g, subst(g, inv)) if any(s in live for s, _ in f[1])}
        C["bytes"] = dict(st.bytes)
        for a, s in st.bytes.items():
            for i in each:
                C["bytes"].setdefault(subst(a, i), s)
            for t, f in m.items():
                if f is not None and f[1]:
                    x = add(add(a, f, -1), sym(t))
                    if len(x[1]) <= len(a[1]):
                        C["bytes"].setdefault(x, s)

    def frontier(self, st):
        pass

    def header(self, st, b, prev):
        return True

    def datalen(self):
        return sym("datalen")


class Open(Walk):
    """lj92_open on any bytes"""
    FIELDS = ("data", "dataend", "datalen", "scanstart", "ix", "x", "y", "bits", "components", "hufflut", "huffbits",
              "rowcache", "outrow")
    fields = ("self", "out:lj", "out:width", "out:height", "out:bitdepth", "out:components")
    zeroed = False

    def __init__(self, judge=True):
        Walk.__init__(self, "lj92_open")
        self.names = {}
        self.o = nest.layout("ljp", self.FIELDS)
        self.of = {v: k for k, v in self.o.items() if k != "sizeof"}
        self.width = {self.o[f]: 8 for f in ("data", "dataend", "hufflut", "rowcache", "outrow")}
        self.width[self.o["outrow"] + 8] = 8
        self.judge = judge
        self.returns = {0: 0, -1: 0, -2: 0}
        self.segments = {}

    def fieldname(self, o):
        return self.of.get(o, str(o))

    def entry(self):
        st = State()
        ps = [p[1] for p in self.f.params]
        if len(ps) != 7:
            raise AnalysisError("parameters of lj92_open")
        st.env[ps[0]] = ("p", "out:lj", con(0))
        st.env[ps[1]] = ("p", "data", con(0))
        st.env[ps[2]] = ("i", sym("datalen"))
        for p, n in zip(ps[3:], ("width", "height", "bitdepth", "components")):
            st.env[p] = ("p", "out:" + n, con(0))
        self.rng["datalen"] = (0, (1 << 31) - (1 << 17))
        return [st]

    def objname(self, st, I):
        a = [self.val(st, x[1]) for x in I.args]
        if "self" not in st.objs and a[0] and a[0][0] == "i" and not any(v and v[0] == "p" and v[1] == "self"
                                                                         for v in st.env.values()):
            return "self"
        return "heap@%s" % I.res

    def cell(self, st, f, d=0):
        k = ("self", self.o[f] + d)
        return st.cells[k] if k in st.cells else self.default(("m",) + k)

    def num(self, st, f):
        v = self.cell(st, f)
        return v[1] if v and v[0] == "i" else None

    def tablesize(self, st):
        """does the code table have an entry for every value of huffbits bits?"""
        p, h = self.cell(st, "hufflut"), self.num(st, "huffbits")
        if p is None or p[0] != "p" or p[1] not in st.objs or h is None or st.objs[p[1]][1] is None:
            return False
        return st.objs[p[1]][1] == scale(self.power(h), 2)

    def extra(self, st):
        none = []
        for f in ("x", "y", "components", "bits"):
            n = self.num(st, f)
            none.append(n is not None and self.zero(st, n))
        return tuple(none), self.tablesize(st)

    def shape(self, st, d):
        """sizes and counts that are a power of the table's bits follow them"""
        h = self.num(st, "huffbits")
        pw = []
        if h is not None and h[1]:
            w = self.power(h)
            for l in sorted(d, key=repr):
                v = d[l]
                if l[0] in ("r", "m", "z") and v is not None and v[0] == "i" and v[1] in (w, scale(w, 2)):
                    pw.append((l, v[1][1][0][1]))
        elif self.tablesize(st):
            pass
        for l, _ in pw:
            del d[l]
        self.pw = pw
        return Walk.shape(self, st, d) + (tuple(pw),)

    def rebuild(self, st):
        h = self.num(st, "huffbits")
        for l, k in self.pw:
            w = scale(self.power(h), k)
            if l[0] == "r":
                st.env[l[1]] = ("i", w)
            elif l[0] == "m":
                st.cells[l[1:]] = ("i", w)
            else:
                st.objs[l[1]] = (True, w)

    # ---- markers
    def frontier(self, st):
        """bytes read and found not to be 0xFF are passed"""
        while st.g in st.bytes and self.nonzero(st, sym(st.bytes[st.g], 1, -255)):
            st.g = add(st.g, con(1))

    def mark(self, st):
        """(symbol, offset) of the byte behind the first 0xFF"""
        self.frontier(st)
        s = st.bytes.get(st.g)
        if s is None or not self.zero(st, sym(s, 1, -255)):
            return None
        a = add(st.g, con(1))
        t = st.bytes.get(a)
        return None if t is None else (t, a)

    def be(self, st, a):
        h, l = st.bytes.get(a), st.bytes.get(add(a, con(1)))
        return None if h is None or l is None else add(sym(l), sym(h), 256)

    def kinds(self, st, m):
        out = [k for k in MARK if not self.nonzero(st, sym(m, 1, -k))]
        if len(out) == 1 and self.zero(st, sym(m, 1, -out[0])):
            return out[0]
        return None if not out else "?"

    def header(self, st, b, prev):
        if b != self.outer:
            return True
        # memory that nothing refers to any more
        refs = {v[1] for d in (st.env, st.cells) for v in d.values() if v is not None and v[0] == "p"}
        for n, (l, _) in st.objs.items():
            if l and n not in refs:
                self.bad(st, "leak", "the memory of an earlier segment is lost", None)
        self.segment(st, prev in self.body[b])
        ix = self.num(st, "ix")
        st.g = con(0) if ix is None else ix
        st.wrote, st.bytes, st.loop = frozenset(), {}, True
        return True

    def fail(self, st, why, rule="segment"):
        self.obl += 1
        self.bad(st, rule, why, None)

    def segment(self, st, inside):
        if not self.judge:
            return
        self.obl += 1
        mk = self.mark(st)
        ix = self.num(st, "ix")
        if mk is None and ix is not None and self.zero(st, add(ix, st.g, -1)) and not st.wrote - {self.o["ix"]}:
            return None                                        # still looking for 0xFF
        if mk is None or ix is None:
            return self.fail(st, "what follows is not taken for a marker and its segment"
                             if not inside else "the byte behind 0xFF is not taken for a marker")
        m, a = mk
        if not inside:
            if not self.zero(st, sym(m, 1, -0xD8)):
                return self.fail(st, "a file that does not begin with the start marker is read")
            if not self.zero(st, add(add(ix, a, -1), con(-1))):
                return self.fail(st, "the first segment is looked for %s bytes behind the start marker" % show(
                    add(add(ix, a, -1), con(-1))))
            return
        k = self.kinds(st, m)
        n = self.be(st, add(a, con(1)))
        body = add(a, con(1))
        wrote = {self.of.get(o) for o in st.wrote} & set(self.FIELDS) - {"ix"}
        self.segments[k if k in MARK else "other"] = self.segments.get(k if k in MARK else "other", 0) + 1
        if k == "?":
            return self.fail(st, "a segment is taken the same way for different markers")
        if k in (0xD9, 0xDA):
            return self.fail(st, "%s does not end the header" % MARK[k])
        if n is None or not self.zero(st, add(ix, add(body, n), -1)):
            return self.fail(st, "behind %s reading goes on at %s instead of its length behind its begin, %s" % (
                MARK.get(k, "another segment"), show(ix), "?" if n is None else show(add(body, n))))
        if k == 0xC3:
            want = {"y": self.be(st, add(body, con(3))), "x": self.be(st, add(body, con(5)))}
            for f, o in (("bits", 2), ("components", 7)):
                s = st.bytes.get(add(body, con(o)))
                want[f] = None if s is None else sym(s)
            for f, w in want.items():
                v = self.num(st, f)
                if v is None or w is None or not self.zero(st, add(v, w, -1)):
                    return self.fail(st, "%s is not what the frame header says" % f)
            lost = wrote - set(want)
            if lost:
                return self.fail(st, "a frame header changes %s" % ", ".join(sorted(lost)))
        elif k == 0xC4:
            p = self.cell(st, "hufflut")
            if "hufflut" not in wrote or not self.tablesize(st):
                return self.fail(st, "a code table segment leaves no table of its size")
            lost = wrote - {"hufflut", "huffbits"}
            if lost:
                return self.fail(st, "a code table changes %s" % ", ".join(sorted(lost)))
        elif wrote:
            return self.fail(st, "a segment that is neither frame nor table changes %s" % ", ".join(sorted(wrote)))

    def refused(self, st):
        """is there a reason to refuse the file?"""
        if st.oom:
            return True
        mk = self.mark(st)
        D = sym("datalen")

        def ended(at):
            return at is not None and self.entails(st, add(at, D, -1))
        if mk is None:
            # neither marker nor room for one
            return ended(add(st.g, con(2)))
        m, a = mk
        k = self.kinds(st, m)
        if not st.loop:
            return self.nonzero(st, sym(m, 1, -0xD8))
        body = add(a, con(1))
        n = self.be(st, body)
        if k == 0xD9:
            return True
        if k == "?":
            return False
        if k == 0xDA:
            p, c = self.cell(st, "hufflut"), self.num(st, "components")
            return p is not None and p[0] == "p" and p[1] == "null" or c is not None and self.zero(st, c)
        if n is not None and ended(add(body, n)):
            return True
        if k == 0xC4:
            return True                                        # the codes are C27's
        if k == 0xC3:
            if ended(add(body, con(7))):
                return True
            for f, o in (("y", 3), ("x", 5), ("components", 7), ("bits", 2)):
                s = st.bytes.get(add(body, con(o)))
                v = sym(s) if o in (2, 7) and s else self.be(st, add(body, con(o))) if o in (3, 5) else None
                if v is None:
                    continue
                if self.zero(st, v) or f == "bits" and self.entails(st, add(v, con(-17))):
                    return True
            return False
        return ended(add(body, con(1)))

    def ret(self, st, v, I):
        if v is None or v[0] != "i" or v[1][1]:
            raise AnalysisError("an unknown result at %s" % self.where(I))
        c = v[1][0]
        self.returns[c] = self.returns.get(c, 0) + 1
        self.obl += 1
        live = {n for n, (l, _) in st.objs.items() if l}
        if c != 0:
            if live:
                self.bad(st, "leak", "memory stays allocated when the file is refused", I)
            h = st.cells.get(("out:lj", 0))
            if "self" in st.objs and not (h and h[0] == "p" and h[1] == "null"):
                self.bad(st, "handle", "a refused file leaves a handle", I)
            if self.judge and not self.refused(st):
                mk = self.mark(st)
                self.bad(st, "refused", "a file is refused without a reason (marker %s)" % (
                    "none" if mk is None else self.kinds(st, mk[0])), I)
            return
        h = st.cells.get(("out:lj", 0))
        if not (h and h[0] == "p" and h[1] == "self" and "self" in live):
            self.bad(st, "handle", "success without a handle", I)
            return
        ss = self.num(st, "scanstart")
        if ss is None:
            self.bad(st, "usable", "the scan's place is unknown", I)
            return
        self.need(st, "usable", ss, "the scan may begin before the data", I)
        self.need(st, "usable", add(add(sym("datalen"), ss, -1), con(-1)), "the scan may begin behind the data", I)
        for f in ("x", "y", "components", "bits"):
            n = self.num(st, f)
            if n is None:
                self.bad(st, "usable", "%s is unknown" % f, I)
                continue
            self.need(st, "usable", add(n, con(-1)), "success with %s that may be 0" % f, I)
            if f == "bits":
                self.need(st, "usable", add(con(16), n, -1), "success with more than 16 bits", I)
        p = self.cell(st, "hufflut")
        if not (p and p[0] == "p" and p[1] in live):
            self.bad(st, "usable", "success without a code table", I)
        elif not self.tablesize(st):
            self.bad(st, "usable", "the code table has not an entry for every value of huffbits bits", I)
        r = self.cell(st, "rowcache")
        if not (r and r[0] == "p" and r[1] in live):
            self.bad(st, "usable", "success without the rows", I)
        want = {"self"} | {q[1] for q in (p, r) if q and q[0] == "p"}
        if live - want:
            self.bad(st, "leak", "memory that lj92_close does not free stays allocated", I)
        if self.judge:
            self.obl += 1
            mk = self.mark(st)
            if mk is None or not self.zero(st, sym(mk[0], 1, -0xDA)):
                self.fail(st, "success without a scan")
            elif not self.zero(st, add(add(ss, mk[1], -1), con(-1))):
                self.fail(st, "the scan begins at %s instead of %s" % (show(ss), show(add(mk[1], con(1)))))


class Rest(Walk):
    """lj92_decode until it reads the first difference, lj92_close: what lj92_open left is enough"""
    fields = ("self",)
    zeroed = False
    cut = False

    def __init__(self, fname):
        Walk.__init__(self, fname)
        self.names = {}
        self.o = nest.layout("ljp", Open.FIELDS)
        self.width = {self.o[f]: 8 for f in ("data", "dataend", "hufflut", "rowcache", "outrow")}
        self.first = 0

    def entry(self):
        st = State()
        o = self.o
        self.rng.update(datalen=(0, (1 << 31) - (1 << 17)), x=(1, 65535), y=(1, 65535), components=(1, 255),
                        bits=(1, 16), scanstart=(0, None), huffbits=(0, 16))
        for f in ("datalen", "x", "y", "components", "bits", "scanstart", "huffbits"):
            st.cells[("self", o[f])] = ("i", sym(f))
        st.facts.add(add(add(sym("datalen"), sym("scanstart"), -1), con(-1)))
        st.cells[("self", o["data"])] = ("p", "data", con(0))
        st.cells[("self", o["hufflut"])] = ("p", "heap@table", con(0))
        st.cells[("self", o["rowcache"])] = ("p", "heap@rows", con(0))
        st.cells[("self", o["outrow"])] = ("p", "heap@rows", con(0))
        st.objs = {"self": (True, None), "heap@table": (True, None), "heap@rows": (True, None)}
        ps = [p[1] for p in self.f.params]
        st.env[ps[0]] = ("p", "self", con(0))
        out = [st]
        if self.f.name == "lj92_close":
            n = State()
            n.env[ps[0]] = ("p", "null", con(0))
            out.append(n)
        else:
            if len(ps) != 6:
                raise AnalysisError("parameters of lj92_decode")
            st.env[ps[1]] = ("p", "image", con(0))
            for p, n in ((ps[2], "writelen"), (ps[3], "skiplen"), (ps[5], "linlen")):
                st.env[p] = ("i", sym(n))
            st.env[ps[4]] = ("p", "lin", con(0))
        return out

    def other(self, st, name, args, I):
        if name != "nextdiff":
            raise AnalysisError("call of %s at %s" % (name, self.where(I)))
        v = st.cells.get(("self", self.o["ix"]))
        self.first += 1
        if v is None or v[0] != "i":
            self.bad(st, "data", "the place of the first code is unknown", I)
        else:
            self.need(st, "data", v[1], "the first code may be read before the data", I)
        return []

    def ret(self, st, v, I):
        live = {n for n, (l, _) in st.objs.items() if l}
        self.obl += 1
        if self.f.name == "lj92_close":
            if live:
                self.bad(st, "leak", "lj92_close leaves memory allocated", I)
        elif len(live) < len(st.objs):
            self.bad(st, "heap", "lj92_decode frees what is used again", I)
