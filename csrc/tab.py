"""liblj92's Huffman tables: the decoder's look-up table and the encoder's codes follow the canonical order.

Abstract interpretation over LLVM IR with a ghost that walks the canonical code: the current length B (a constant),
the number V of codes of that length, the number K of all codes, the place R within the entries of the current code and
the table position e.  A number is a set of forms ghost + constant; states that meet at a loop header are joined (forms
and facts intersected, ghost ranges joined).  Nothing is executed and nothing is handed to a solver."""
from bitrun import sg
from lj import off
from llir import AnalysisError
from nest import Nest, Violation, module

CODES = tuple("c%d" % k for k in range(17))                     # the current code, times 2**k
SYMS = ("e", "V", "K", "R") + CODES + ("Q",)                    # Q is -R


class U:
    """an unknown number; tags say what it depends on"""
    __slots__ = ("tags",)

    def __init__(self, tags=frozenset()):
        self.tags = tags

    def __eq__(self, o):
        return isinstance(o, U) and self.tags == o.tags

    def __hash__(self):
        return hash(self.tags)

    def __repr__(self):
        return "?"


UN = U()


def fset(*f):
    return frozenset(f)


def C(c):
    return frozenset([(None, c)])


def const(v):
    if isinstance(v, frozenset):
        for s, c in v:
            if s is None:
                return c
    return None


def tags(*vs):
    t = frozenset()
    for v in vs:
        if isinstance(v, U):
            t |= v.tags
        elif isinstance(v, tuple):
            if v[0] == "ixp":
                t |= {"len"}
            elif v[0] == "val":
                t |= {"val"}
            else:
                t |= tags(*[x for x in v[1:] if isinstance(x, (U, tuple))])
    return t


def vmap(v, f):
    """map the number forms inside a value"""
    if isinstance(v, frozenset):
        return f(v)
    if isinstance(v, tuple):
        return tuple(vmap(x, f) for x in v)
    return v


def ok(v):
    """no empty set of forms inside"""
    if isinstance(v, frozenset):
        return bool(v)
    if isinstance(v, tuple):
        return all(ok(x) for x in v)
    return True


def meet(a, b):
    if a == b:
        return a
    if isinstance(a, frozenset) and isinstance(b, frozenset):
        return a & b or UN
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        r = tuple(meet(x, y) for x, y in zip(a, b))
        if not any(isinstance(x, U) and not (isinstance(p, U) and isinstance(q, U)) for x, p, q in zip(r, a, b)) and \
                all(x == y or isinstance(x, (frozenset, tuple, U)) for x, y in zip(a, b)):
            return r
    return U(tags(a) | tags(b))


class State:
    def __init__(self):
        self.env, self.mem = {}, {}
        self.rng = {s: (0, 0) for s in SYMS}
        self.B, self.M, self.done = 1, None, False
        self.facts, self.flags, self.unsure = {}, frozenset(), False

    def copy(self):
        s = State.__new__(State)
        s.env, s.mem, s.rng, s.facts = dict(self.env), dict(self.mem), dict(self.rng), dict(self.facts)
        s.B, s.M, s.done, s.flags, s.unsure = self.B, self.M, self.done, self.flags, self.unsure
        return s


class Tables:
    """subclasses: entry, load, store, call, ret; term(t) of a count is ("bits", j)"""
    LIMIT = 400000
    MANY, FEW = 40, 12

    def __init__(self, fname):
        self.m = module(("parseHuff",))
        if fname not in self.m.funcs:
            raise AnalysisError("no function %s" % fname)
        self.f, self.Ty = self.m.funcs[fname], self.m.types
        n = Nest.__new__(Nest)
        n.f = self.f
        n.cfg()
        self.live, self.heads = n.live, n.heads
        self.table, self.consts, self.wide = {}, {}, {}
        self.blocks = self.obl = 0
        self.violations, self.undecided, self.opaque = [], None, True

    def where(self, I):
        return self.m.where(I)

    # ---- exploration
    def run(self):
        st = State()
        self.entry(st)
        todo = [("b", self.f.order[0], st)]
        while todo:
            kind, b, x = todo.pop()
            if kind == "h":
                st = x[0].copy()
                x[1] = False
                self.tighten(st)
            else:
                st = x
            self.blocks += 1
            if self.blocks > self.LIMIT:
                raise AnalysisError("too many states of %s" % self.f.name)
            try:
                self.block(st, b, 0, todo)
            except Violation as e:
                if not st.unsure:
                    raise
                self.violations.append(str(e))

    def enter(self, st, b, prev, todo):
        new = {}
        for I in self.f.blocks[b]:
            if I.op != "phi":
                break
            new[I.res] = self.val(st, dict((p, v) for v, p in I.args)[prev])
        keep = self.live[b] | set(new)
        st.env.update(new)
        st.env = {k: v for k, v in st.env.items() if k in keep}
        if b not in self.heads:
            todo.append(("b", b, st))
            return
        self.settle(st)
        self.expand(st)
        ks = []
        for k in sorted(st.env):
            v = st.env[k]
            if isinstance(v, frozenset) and len(v) == 1 and const(v) is not None:
                w = self.wide.setdefault(b, set())
                if k in w:
                    st.env[k] = UN
                    continue
                cs = self.consts.setdefault((b, k), set())
                cs.add(const(v))
                if len(cs) > self.MANY:
                    w.add(k)
                    st.env[k] = UN
                    continue
                ks.append((k, const(v)))
        key = (b, prev, st.B, st.M, st.done, st.flags, st.unsure, tuple(ks),
               tuple(sorted((k, str(v)) for k, v in st.mem.items())))
        mine = self.table.setdefault(key, [])
        best = None
        for x in mine:
            bad = sum(not self.fits(x[0].env.get(k, UN), v) for k, v in st.env.items())
            if best is None or bad < best[0]:
                best = bad, x
                if not bad:
                    break
        if best and (not best[0] or len(mine) >= self.FEW):
            x = best[1]
            if self.join(x[0], st) and not x[1]:
                x[1] = True
                todo.append(("h", b, x))
            return
        x = [st, True]
        mine.append(x)
        todo.append(("h", b, x))

    def join(self, o, n):
        ch = False
        for k in list(o.env):
            v = meet(o.env[k], n.env.get(k, UN))
            if v != o.env[k]:
                o.env[k] = v
                ch = True
        f = {k: v for k, v in o.facts.items() if n.facts.get(k) == v}
        if len(f) != len(o.facts):
            o.facts = f
            ch = True
        for s in SYMS[:-1]:
            (a, b), (c, d) = o.rng[s], n.rng[s]
            top = self.full(o) if s == "R" else 1 << o.M if s == "e" and o.M is not None else None
            lo = a if c >= a else c
            hi = b if b is None or d is not None and d <= b else \
                (top if top is not None and d is not None and d <= top else None)
            if (lo, hi) != o.rng[s]:
                if lo != a:
                    lo = 0
                o.rng[s] = (lo, hi)
                ch = True
        self.mirror(o)
        return ch

    def mirror(self, st):
        lo, hi = st.rng["R"]
        st.rng["Q"] = (None if hi is None else -hi, -lo)

    def tighten(self, st):
        """ghosts equal to a constant"""
        for v in list(st.env.values()):
            k = const(v) if isinstance(v, frozenset) else None
            if k is not None:
                for s, c in v:
                    if s and s != "Q":
                        st.rng[s] = (k - c, k - c)
                    elif s:
                        st.rng["R"] = (c - k, c - k)
        self.mirror(st)

    def fits(self, a, b):
        return isinstance(a, U) or isinstance(b, U) or not isinstance(meet(a, b), U)

    def settle(self, st):
        pass

    def expand(self, st):
        """zeros and ghosts known to be zero are the same number"""
        if st.flags & {"filled", "coded"}:
            if not st.done:
                o = st.copy()
                st.done = self.normal(o) is None
            if st.M is not None and st.rng["e"][0] >= 1 << st.M:
                st.done = True
        if st.done:
            r = st.rng
            return self.rename(st, lambda v: frozenset(
                x if x[0] is None else (None, x[1] + r[x[0]][0]) for x in v
                if x[0] is None or r[x[0]][0] == r[x[0]][1]))
        if st.flags & {"filled", "coded"} or self.biggest(st):
            self.zeros(st)

    def zeros(self, st):
        zs = [s for s in SYMS[:5] if st.rng[s] == (0, 0)]
        if not zs:
            return

        n = self.full(st) if "R" in zs else None

        def f(v):
            k = const(v)
            return v | {(s, 0) for s in zs} if k == 0 else v | {("Q", n)} if k == n and n is not None else v
        def g(v):
            k = const(v)
            return v | {(s, k) for s in zs} if k is not None else v
        for k, v in st.env.items():
            st.env[k] = (v[0], v[1], g(v[2])) if isinstance(v, tuple) and v[0] == "less" else vmap(v, f)
        if "V" in zs:
            for (f, t), v in list(st.facts.items()):
                if f[0] is None:
                    st.facts[(("V", f[1]), t)] = v

    def full(self, st):
        return 1 << (st.M - st.B) if st.M is not None and st.B <= st.M else None

    # ---- the ghost
    def shift(self, st, s, d):
        """ghost s becomes s + d"""
        def f(v):
            return frozenset((a, c - d) if a == s else (a, c) for a, c in v)
        self.rename(st, f)
        st.facts = {((a[0], a[1] - d) if a[0] == s else a, t): v for (a, t), v in st.facts.items()}
        lo, hi = st.rng[s]
        if s == "Q":
            return
        st.rng[s] = (lo + d, None if hi is None else hi + d)
        if s == "R":
            self.shift(st, "Q", -d)
            self.mirror(st)

    def double(self, st):
        """the code is continued by a zero bit"""
        up = dict(zip(CODES[1:], CODES))
        lo, hi = st.rng["c0"]

        def f(v):
            r = frozenset((up.get(a, a), c) for a, c in v if a != "c0")
            if lo == hi:
                r |= frozenset((None, c + lo) for a, c in v if a == "c0")
            return r
        self.rename(st, f)
        st.facts = {(a, t): v for (a, t), v in st.facts.items() if a[0] not in CODES}
        for a, b in zip(CODES, CODES[1:]):
            st.rng[a] = st.rng[b]
        lo, hi = st.rng["c16"]
        st.rng["c16"] = (lo * 2, None if hi is None else hi * 2)

    def zero(self, st, s):
        """ghost s starts again"""
        if s == "R":
            self.zero(st, "Q")
        lo, hi = st.rng[s]

        def f(v):
            r = frozenset((a, c) for a, c in v if a != s)
            if lo == hi:
                r |= frozenset((None, c + lo) for a, c in v if a == s)
            return r
        self.rename(st, f)
        st.facts = {(a, t): v for (a, t), v in st.facts.items() if a[0] != s}
        st.rng[s] = (0, 0)
        if s != "Q":
            self.zeros(st)

    def rename(self, st, f):
        for d in (st.env, st.mem):
            for k, v in d.items():
                w = vmap(v, f)
                d[k] = w if ok(w) else U(tags(v))

    def biggest(self, st):
        """the number of bits of the longest code, when it is known"""
        for j in range(16, 0, -1):
            v = st.facts.get(((None, 0), ("bits", j)))
            if v is None:
                return None
            if v:
                return j
        return 0

    def normal(self, st):
        """the ghost at its next code: True, at the end of the code: None; False when that is not known"""
        if st.M is None:
            st.M = self.biggest(st)
            if st.M is None:
                return False
        while not st.done:
            if st.B > st.M:
                st.done = True
                break
            if self.REPEAT:
                lo, hi = st.rng["R"]
                n = self.full(st)
                if lo == hi == n:
                    self.zero(st, "R")
                    self.shift(st, "V", 1)
                    self.shift(st, "K", 1)
                elif hi is None or hi >= n:
                    return False
            v = self.less(st, ("V", 0), ("bits", st.B))
            if v is None and st.rng["V"] == (0, 0):
                v = self.less(st, (None, 0), ("bits", st.B))
            if v is None:
                return False
            if v:
                return True
            st.B += 1
            self.zero(st, "V")
            self.double(st)
        return None

    def less(self, st, f, t):
        """is the number below the count?"""
        def plain(f):
            return (None, f[1] + st.rng[f[0]][0]) if f[0] and st.rng[f[0]][0] == st.rng[f[0]][1] else f
        f = plain(f)
        for (g, u), v in st.facts.items():
            if u == t:
                g = plain(g)
                if g[0] == f[0] and (v and f[1] <= g[1] or not v and f[1] >= g[1]):
                    return v
        if f[0] is None and f[1] < 0:
            return True
        return None

    # ---- conditions
    def icmp(self, st, p, a, b, n):
        """a value for the comparison: int or condition"""
        signed = p[0] == "s" or p in ("eq", "ne")
        q = {"slt": "lt", "ult": "lt", "sgt": "gt", "ugt": "gt", "sle": "le", "ule": "le", "sge": "ge",
             "uge": "ge"}.get(p, p)
        if isinstance(a, frozenset) and isinstance(b, frozenset):
            if not signed and not (self.nonneg(st, a) and self.nonneg(st, b)):
                return U()
            for s, c in a:
                for t, d in b:
                    if s == t:
                        return int({"eq": c == d, "ne": c != d, "lt": c < d, "gt": c > d, "le": c <= d,
                                    "ge": c >= d}[q])
            for x, y, r in ((a, b, q), (b, a, {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(q, q))):
                k = const(y)
                if k is not None and x:
                    return ("range", r, x, k)
            return U()
        for x, y, r in ((a, b, q), (b, a, {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(q, q))):
            if isinstance(x, frozenset) and isinstance(y, tuple) and y[0] == "hb" and isinstance(y[1], int):
                return ("count", r, x, y)
            if isinstance(x, frozenset) and isinstance(y, tuple) and y[0] == "less" and const(y[2]) == 0:
                return ("count", r, x, y[1])
            if const(x) is not None and isinstance(y, tuple) and y[0] == "less":
                return ("count", r, frozenset((s, k + const(x)) for s, k in y[2]), y[1])
        for x, y, r in ((a, b, q), (b, a, {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(q, q))):
            if isinstance(x, tuple) and x[0] == "val" and const(y) is not None:
                return ("val", r, x[1], const(y))
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "p":
            if {a[1], b[1]} == {None, "new"}:
                return ("null", q == "eq")
            if None in (a[1], b[1]) and a[1] != b[1] and {a[1], b[1]} & {"self", "data", "head"}:
                return int(q == "ne")
        return U(tags(a, b))

    def nonneg(self, st, v):
        k = const(v)
        if k is not None:
            return k >= 0
        return any(st.rng[s][0] is not None and st.rng[s][0] + c >= 0 for s, c in v)

    def truth(self, st, c):
        """[(state, bool)]"""
        if isinstance(c, frozenset):
            c = const(c)
        if isinstance(c, int):
            return [(st, bool(c))]
        if isinstance(c, tuple) and c[0] == "not":
            return [(s, not v) for s, v in self.truth(st, c[1])]
        if isinstance(c, tuple) and c[0] == "range":
            _, q, x, k = c
            out = []
            for v in (True, False):
                r = q if v else {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}[q]
                o = st.copy()
                if all(self.refine(o, r, s, k - d) for s, d in x):
                    out.append((o, v))
            return out
        if isinstance(c, tuple) and c[0] == "count":
            return self.count(st, *c[1:])
        if isinstance(c, tuple) and c[0] in ("null", "val"):
            out = []
            for v in (True, False):
                o = st.copy()
                if c[0] == "null" and v == c[1]:
                    o.flags |= {"error"}
                if c[0] == "val" and (c[1], c[3], v) in (("gt", 16, True), ("ge", 17, True), ("le", 16, False),
                                                         ("lt", 17, False)):
                    o.flags |= {"error"}
                elif c[0] == "val":
                    o.flags |= {"odd"}
                out.append((o, v))
            return out
        t = c.tags if isinstance(c, U) else tags(c)
        if "len" not in t and (self.REPEAT or self.biggest(st) is not None):
            st.unsure = True
        out = []
        for v in (True, False):
            o = st.copy()
            if "len" in t:
                o.flags |= {"short"} if v else frozenset()
            out.append((o, v))
        return out

    def refine(self, st, r, s, k):
        """learn s r k; False when it cannot be"""
        if s is None:
            return {"eq": 0 == k, "ne": 0 != k, "lt": 0 < k, "le": 0 <= k, "gt": 0 > k, "ge": 0 >= k}[r]
        if s == "Q":
            return self.refine(st, {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(r, r), "R", -k)
        lo, hi = st.rng[s]
        if r == "eq":
            lo, hi = max(lo, k), k if hi is None else min(hi, k)
        elif r == "ne":
            if lo == k:
                lo += 1
            if hi == k:
                hi -= 1
        elif r in ("lt", "le"):
            m = k - (r == "lt")
            hi = m if hi is None else min(hi, m)
        else:
            lo = max(lo, k + (r == "gt"))
        st.rng[s] = (lo, hi)
        self.mirror(st)
        return hi is None or lo <= hi

    def count(self, st, q, x, t):
        """x q count"""
        def below(c):                                          # x + c < count
            for s, k in x:
                r = self.less(st, (s, k + c), t)
                if r is not None:
                    return r
            return None

        def learn(s, c, v):
            for a, k in x:
                s.facts[((a, k + c), t)] = v
        if q in ("eq", "ne"):
            lo, at = below(-1), below(0)
            if const(x) == 0:
                lo = True                                      # -1 is below every count
            if at or lo is False:
                return [(st, q == "ne")]
            if lo and at is False:
                return [(st, q == "eq")]
            out = []
            for v in (True, False):
                o = st.copy()
                if lo:
                    learn(o, 0, not v)
                elif v:
                    learn(o, -1, True)
                    learn(o, 0, False)
                out.append((o, v == (q == "eq")))
            return out
        c = {"lt": 0, "ge": 0, "le": -1, "gt": -1}[q]
        pol = q in ("lt", "le")
        v = below(c)
        if v is not None:
            return [(st, v == pol)]
        out = []
        for v in (True, False):
            o = st.copy()
            learn(o, c, v)
            out.append((o, v == pol))
        return out

    # ---- instructions
    def val(self, st, v):
        t = v[0]
        if t == "reg":
            return st.env.get(v[1], UN)
        if t == "int":
            ty = self.Ty.resolve(v[2])
            return C(sg(v[1] & ((1 << ty[1]) - 1), ty[1]) if ty[1] > 1 else v[1] & 1)
        if t == "null":
            return ("p", None, C(0), 0, 0)
        if t == "zero":
            return C(0)
        return UN

    def block(self, st, b, i, todo):
        ins = self.f.blocks[b]
        while i < len(ins):
            I = ins[i]
            i += 1
            o = I.op
            if o == "phi":
                continue
            if o == "br":
                if len(I.args) == 1:
                    return self.enter(st, I.args[0], b, todo)
                for s, v in self.truth(st, self.val(st, I.x)):
                    self.guard(s, todo, lambda s=s, v=v: self.enter(s, I.args[0 if v else 1], b, todo))
                return
            if o == "switch":
                v = const(self.val(st, I.x)) if isinstance(self.val(st, I.x), frozenset) else None
                if v is not None:
                    return self.enter(st, {sg(k, 32): x for k, x in I.args[1]}.get(v, I.args[0]), b, todo)
                for t in {x for _, x in I.args[1]} | {I.args[0]}:
                    self.enter(st.copy(), t, b, todo)
                return
            if o == "ret":
                return self.ret(st, self.val(st, I.args[0]) if I.args else None, I)
            if o == "unreachable":
                return
            if o == "select":
                r = self.truth(st, self.val(st, I.args[0]))
                for s, v in r:
                    s.env[I.res] = self.val(s, I.args[1 if v else 2])
                    self.guard(s, todo, lambda s=s: self.block(s, b, i, todo))
                return
            self.inst(st, I)

    def guard(self, st, todo, go):
        try:
            go()
        except Violation as e:
            if not st.unsure:
                raise
            self.violations.append(str(e))

    def inst(self, st, I):
        o = I.op
        if o in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "sdiv", "urem", "srem"):
            st.env[I.res] = self.binop(st, o, self.val(st, I.args[0]), self.val(st, I.args[1]),
                                       self.Ty.resolve(I.ty)[1])
        elif o == "icmp":
            t = self.Ty.resolve(I.ty)
            c = self.icmp(st, I.x, self.val(st, I.args[0]), self.val(st, I.args[1]), t[1] if t[0] == "i" else 64)
            st.env[I.res] = C(c) if isinstance(c, int) else c
        elif o in ("zext", "sext", "trunc", "freeze"):
            st.env[I.res] = self.cast(st, o, self.val(st, I.args[0]), self.Ty.resolve(I.x), self.Ty.resolve(I.ty))
        elif o == "getelementptr":
            st.env[I.res] = self.gep(st, I.ty, [self.val(st, v) for _, v in I.args])
        elif o == "load":
            st.env[I.res] = self.load(st, I, self.val(st, I.args[0]), self.Ty.size(I.ty))
        elif o == "store":
            self.store(st, I, self.val(st, I.args[1]), self.val(st, I.args[0]), self.Ty.size(I.ty))
        elif o == "call":
            self.call(st, I)
        elif o == "alloca":
            st.env[I.res] = ("p", "local:" + I.res, C(0), 0, 0)
        elif I.res:
            st.env[I.res] = UN

    def binop(self, st, o, a, b, n):
        ka, kb = const(a), const(b)
        if n == 1:
            if o == "xor" and kb == 1:
                return ("not", a)
            return U(tags(a, b))
        if ka is not None and kb is not None:
            m = (1 << n) - 1
            ua = ka & m
            if o in ("shl", "lshr", "ashr") and not 0 <= kb < n or o in ("udiv", "sdiv", "urem", "srem") and kb == 0:
                return UN
            r = {"add": lambda: ka + kb, "sub": lambda: ka - kb, "mul": lambda: ka * kb, "shl": lambda: ua << kb,
                 "lshr": lambda: ua >> kb, "ashr": lambda: ka >> kb, "and": lambda: ka & kb, "or": lambda: ka | kb,
                 "xor": lambda: ka ^ kb, "udiv": lambda: ua // (kb & m), "urem": lambda: ua % (kb & m),
                 "sdiv": lambda: abs(ka) // abs(kb) * (1 if (ka < 0) == (kb < 0) else -1),
                 "srem": lambda: abs(ka) % abs(kb) * (-1 if ka < 0 else 1)}[o]()
            r = sg(r & m, n)
            if o == "add" and r == ka + kb:
                return frozenset((s, c + kb) for s, c in a) | frozenset((s, c + ka) for s, c in b)
            if o == "sub" and r == ka - kb:
                return frozenset((s, c - kb) for s, c in a)
            if o == "shl" and r == ka << kb or o == "mul" and r == ka * kb and kb in (2, 4):
                return self.scaled(a, kb if o == "shl" else kb // 2) | C(r)
            return C(r)
        if isinstance(a, frozenset) and isinstance(b, frozenset):
            if o == "shl" and kb is not None or o == "mul" and kb in (2, 4):
                return self.scaled(a, kb if o == "shl" else kb // 2) or UN
            if o == "add" and kb is not None:
                return frozenset((s, c + kb) for s, c in a)
            if o == "add" and ka is not None:
                return frozenset((s, c + ka) for s, c in b)
            if o == "sub" and kb is not None:
                return frozenset((s, c - kb) for s, c in a)
            if o == "sub":
                for s, c in a:
                    for t, d in b:
                        if s == t:
                            return C(c - d)
            if o in ("lshr", "ashr") and kb is not None and self.nonneg(st, a):
                return a if kb == 0 else ("shr", a, kb)
            if o in ("sdiv", "udiv") and kb is not None and kb > 0 and kb & (kb - 1) == 0 and self.nonneg(st, a):
                return a if kb == 1 else ("shr", a, kb.bit_length() - 1)
            return UN
        if o in ("add", "sub") and isinstance(a, tuple) and a[0] == "less" and isinstance(b, frozenset):
            t, f = a[1:]
            f = self.binop(st, "add" if o == "sub" else "sub", f, b, n)
            return ("less", t, f) if isinstance(f, frozenset) else UN
        if o == "add":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, tuple) and x[0] == "ixp" and isinstance(y, frozenset):
                    return ("ixp", self.binop(st, "add", x[1], y, n))
        if isinstance(a, tuple) and a[0] == "val":
            if o == "shl" and kb is not None or o == "mul" and kb is not None and kb > 0 and kb & (kb - 1) == 0:
                return ("shl", a, kb if o == "shl" else kb.bit_length() - 1)
        for x, y in ((a, b), (b, a)):
            if o in ("or", "add") and isinstance(x, tuple) and x[0] == "shl" and isinstance(y, frozenset):
                return ("entry", x, y)
        return U(tags(a, b))

    def scaled(self, a, k):
        return frozenset((CODES[CODES.index(s) + k], c << k) for s, c in a if s in CODES and CODES.index(s) + k < 17)

    def cast(self, st, o, v, src, dst):
        if o == "freeze" or src[0] != "i" or dst[0] != "i":
            return v
        if isinstance(v, frozenset):
            k = const(v)
            if k is not None:
                m = (1 << src[1]) - 1
                if o == "zext":
                    return v if k >= 0 else C(k & m)
                if o == "trunc":
                    return v if -(1 << dst[1] - 1) <= k < 1 << dst[1] - 1 else C(sg(k & ((1 << dst[1]) - 1), dst[1]))
                return v
            return v if dst[1] >= 32 else UN if dst[1] < 16 else v
        if isinstance(v, tuple) and v[0] in ("less", "val", "hb"):
            if o == "sext" and v[0] != "hb" and src[1] == 8:
                return U(tags(v))
            return v
        if isinstance(v, tuple) and v[0] == "p":
            return UN
        return v

    def gep(self, st, ty, vs):
        p = vs[0]
        if not (isinstance(p, tuple) and p[0] == "p"):
            return UN
        _, obj, ix, sc, c = p                                  # obj + c + sc * ix
        cur = ty
        for i, v in enumerate(vs[1:]):
            if i == 0:
                sz = self.Ty.size(ty)
            else:
                r = self.Ty.resolve(cur)
                if r[0] == "struct":
                    fo, cur = self.Ty.field(r, const(v))
                    c += fo
                    continue
                cur = r[2]
                sz = self.Ty.size(cur)
            k = const(v) if isinstance(v, frozenset) else None
            if obj == "data" and isinstance(v, tuple) and v[0] == "ixp" and sz == 1 and sc == 0:
                obj, v = "head", v[1]
                k = const(v) if isinstance(v, frozenset) else None
            if const(ix) is not None:
                c, ix, sc = c + const(ix) * sc, C(0), 0
            if k is not None and sc:
                c += k * sz
            elif sc == 0:
                ix, sc = (C(k), sz) if k else (v, sz) if k is None else (ix, sc)
            else:
                return ("p", obj, UN, 1, 0)
        return ("p", obj, ix, sc, c)

    def fold(self, p):
        _, obj, ix, sc, c = p
        k = const(ix) if isinstance(ix, frozenset) and (len(ix) == 1 or obj != "new") else None
        return p if k is None else (_, obj, C(0), 0, c + k * sc)

    def at(self, p, base, n, w):
        """the index of the element of a table in the object: value, or None"""
        _, obj, ix, sc, c = p
        if sc == 0:
            d = c - base
            return C(d // w) if 0 <= d < n * w and d % w == 0 else None
        if sc != w or not 0 <= c - base < n * w or (c - base) % w:
            return None
        d = (c - base) // w
        if isinstance(ix, frozenset):
            return frozenset((s, k + d) for s, k in ix)
        return ix if d == 0 else None

    def call(self, st, I):
        raise NotImplementedError


class Lookup(Tables):
    """parseHuff"""
    REPEAT = True

    def __init__(self):
        Tables.__init__(self, "parseHuff")
        self.o = off("ljp", "data", "datalen", "ix", "hufflut", "huffbits")

    def entry(self, st):
        st.env[self.f.params[0][1]] = ("p", "self", C(0), 0, 0)
        st.mem = {self.o["data"]: ("p", "data", C(0), 0, 0), self.o["ix"]: ("ixp", C(0)),
                  self.o["datalen"]: U(frozenset(["len"]))}

    def load(self, st, I, p, n):
        if not (isinstance(p, tuple) and p[0] == "p"):
            return UN
        _, obj, ix, sc, c = self.fold(p)
        if obj == "self" and sc == 0:
            return st.mem.get(c, UN)
        if obj == "head" and n == 1:
            if sc == 0 and c in (0, 1):
                return U(frozenset(["len"]))
            if sc == 0 and 3 <= c <= 18:
                return ("less", ("bits", c - 2), C(0))
            if sc == 0 and c >= 19:
                return ("val", C(c - 19))
            if sc == 1 and isinstance(ix, frozenset):
                return ("val", frozenset((s, k + c - 19) for s, k in ix))
        return U(frozenset(["len"])) if obj in ("head", "data") else UN

    def store(self, st, I, p, v, n):
        if not (isinstance(p, tuple) and p[0] == "p"):
            raise AnalysisError("write at %s" % self.where(I))
        _, obj, ix, sc, c = self.fold(p)
        if obj == "self" and sc == 0:
            if c in (self.o["data"], self.o["datalen"]):
                raise AnalysisError("write of the position at %s" % self.where(I))
            st.mem[c] = v
        elif obj == "new":
            self.fill(st, I, p, v, n)
        elif obj in ("head", "data") and not (obj == "head" and sc == 0 and c == 2):
            raise Violation("the scanned data are written at %s" % self.where(I))

    def fill(self, st, I, p, v, n):
        r = self.normal(st)
        v = self.val(st, I.args[0])
        _, obj, ix, sc, c = self.fold(self.val(st, I.args[1]))
        if n != 2 or sc not in (0, 2) or not isinstance(ix, frozenset):
            raise AnalysisError("an entry is written at an unknown place at %s" % self.where(I))
        at = C(c // 2) if sc == 0 else frozenset((s, k + c // 2) for s, k in ix)
        if r is False and v == C(0) or r is None and v == C(0):
            return                                             # cleared
        if r is None:
            raise Violation("an entry is written after the last code's, at %s" % self.where(I))
        if r is False:
            raise Violation("an entry is written although the code it belongs to is not decided by the counts, at %s"
                            % self.where(I))
        hi = st.rng["e"][1]
        if hi is None or hi >= 1 << st.M:
            raise Violation("an entry may be written behind the table at %s" % self.where(I))
        if ("e", 0) not in at and not (st.rng["e"] == (const(at),) * 2):
            raise Violation("an entry is left out, or written twice, at %s" % self.where(I))
        good = isinstance(v, tuple) and v[0] == "entry" and v[1][2] == 8
        if not good or const(v[2]) != st.B:
            raise Violation("the entry of a code of %d bits does not say so, at %s" % (st.B, self.where(I)))
        k = v[1][1][1]
        if not isinstance(k, frozenset) or ("K", 0) not in k and st.rng["K"] != (const(k),) * 2:
            raise Violation("the entry of a code does not get the code's value, at %s" % self.where(I))
        self.obl += 1
        st.flags |= {"filled"}
        self.shift(st, "e", 1)
        self.shift(st, "R", 1)

    def call(self, st, I):
        name = I.x[1] if isinstance(I.x, tuple) else None
        if name in ("malloc", "calloc"):
            a = [const(self.val(st, x)) for _, x in self.args(I)]
            m = self.biggest(st)
            if m is None:
                raise Violation("the table is made before its longest code is known, at %s" % self.where(I))
            if None in a:
                raise AnalysisError("size of the table at %s" % self.where(I))
            if (a[0] if name == "malloc" else a[0] * a[1]) < 2 << m:
                raise Violation("the table of codes of up to %d bits is too small, at %s" % (m, self.where(I)))
            self.obl += 1
            st.env[I.res] = ("p", "new", C(0), 0, 0)
        elif name and (name.startswith("llvm.") or name in ("free", "printf")):
            if I.res:
                st.env[I.res] = UN
        else:
            raise AnalysisError("call at %s" % self.where(I))

    def args(self, I):
        return [(a[0], a[1]) for a in I.args]

    def ret(self, st, v, I):
        k = const(v)
        self.obl += 1
        if k is None:
            raise AnalysisError("result at %s" % self.where(I))
        if k != 0:
            if not st.flags & {"error", "short"}:
                raise Violation("a table is refused without a reason at %s" % self.where(I))
            return
        if st.flags & {"error"}:
            raise Violation("a table is accepted although it could not be made, at %s" % self.where(I))
        r = self.normal(st)
        if r is not None and not (st.M is not None and st.rng["e"][0] >= 1 << st.M):
            raise Violation("the table is left although codes%s may be without entries, at %s" % (
                "" if r else " of %s bits" % st.B, self.where(I)))
        if const(st.mem.get(self.o["huffbits"])) != st.M:
            raise Violation("the table's number of bits is not that of its longest code, at %s" % self.where(I))
        if st.mem.get(self.o["hufflut"]) != ("p", "new", C(0), 0, 0):
            raise Violation("the table is not kept, at %s" % self.where(I))


class Codes(Tables):
    """the last part of createEncodeTable: codes from the counts"""
    REPEAT = False

    def __init__(self):
        Tables.__init__(self, "createEncodeTable")
        self.o = off("lje", "bits", "huffval", "huffenc", "huffbits", "huffsym")
        self.N = 17

    def entry(self, st):
        st.env[self.f.params[0][1]] = ("p", "self", C(0), 0, 0)

    def field(self, p):
        for f, w in (("bits", 4), ("huffval", 4), ("huffenc", 2), ("huffbits", 2), ("huffsym", 4)):
            i = self.at(p, self.o[f], 18, w)
            if i is not None:
                return f, w, i
        return None, 0, None

    def load(self, st, I, p, n):
        if not (isinstance(p, tuple) and p[0] == "p" and p[1] == "self"):
            return UN
        f, w, i = self.field(p)
        if f is None or w != n:
            return UN
        k = const(i)
        if f == "bits":
            return ("less", ("bits", k), C(0)) if k is not None and 1 <= k <= 17 else UN
        if f == "huffbits" and k is not None:
            if "cleared" in st.flags and not st.flags & {"coded", "huffbits"}:
                return C(0)
            return ("hb", k)
        if f == "huffval":
            return ("val", i) if isinstance(i, frozenset) else UN
        return UN

    def forget(self, st, t):
        st.facts = {k: v for k, v in st.facts.items() if k[1][0] != t}

    def store(self, st, I, p, v, n):
        if not (isinstance(p, tuple) and p[0] == "p"):
            raise AnalysisError("write at %s" % self.where(I))
        if p[1] != "self":
            return
        f, w, i = self.field(p)
        if f is None:
            raise AnalysisError("write into the encoder's state at %s" % self.where(I))
        if f in ("bits", "huffval"):
            if "coded" in st.flags:
                raise Violation("the table's %s change after codes were made from them, at %s" % (
                    "counts" if f == "bits" else "values", self.where(I)))
            if f == "bits":
                self.forget(st, "bits")
            return
        if f in ("huffbits", "huffenc"):
            if const(v) == 0 and not st.flags & {"coded", "huffbits", "huffenc"} and not self.normal(st.copy()):
                return                                         # cleared
            self.forget(st, "hb")
            self.code(st, I, f, i, v)
            return
        # huffsym[huffval[k]] = k for the codes there are
        if const(v) == 0 and not isinstance(i, tuple) and not any(isinstance(x, tuple) for x in st.flags):
            return                                             # cleared
        k = const(v)
        if k is None or not (isinstance(i, tuple) and i[0] == "val" and const(i[1]) == k):
            raise Violation("a value is not led to its own code at %s" % self.where(I))
        if self.less(st, (None, 0), ("hb", k)) is not True:
            raise Violation("a value is led to a code that may not be there, at %s" % self.where(I))
        if not st.flags & {"coded"} or st.flags & {"huffbits", "huffenc"}:
            raise Violation("a value is led to its code before the codes are made, at %s" % self.where(I))
        self.obl += 1
        st.flags |= {("sym", k)}

    def code(self, st, I, f, i, v):
        r = self.normal(st)
        v, i = self.val(st, I.args[0]), self.field(self.val(st, I.args[1]))[2]
        if r is None and st.rng["e"][0] >= 1 << st.M:
            return                                             # more codes than fit
        if r is None:
            raise Violation("a code is made after the last one, at %s" % self.where(I))
        if r is False:
            raise Violation("a code is made although its length is not decided by the counts, at %s" % self.where(I))
        if f in st.flags or any(isinstance(x, tuple) for x in st.flags):
            raise Violation("a code is made twice at %s" % self.where(I))
        hi = st.rng["e"][1]
        if not isinstance(i, frozenset):
            raise AnalysisError("a code is written at an unknown place at %s" % self.where(I))
        if ("K", 0) not in i and st.rng["K"] != (const(i),) * 2:
            raise Violation("a code is not written at its own place at %s" % self.where(I))
        if f == "huffbits":
            if const(v) != st.B:
                raise Violation("a code of %d bits gets another length at %s" % (st.B, self.where(I)))
        else:
            sh = st.M - st.B
            if const(v) is not None and st.rng["e"][0] == st.rng["e"][1]:
                good = const(v) & 0xffff == st.rng["e"][0] >> sh
            elif isinstance(v, frozenset) and sh == 0 and ("e", 0) in v:
                good = True
            else:
                good = isinstance(v, frozenset) and ("c0", 0) in v or isinstance(v, tuple) and v[0] == "shr" and v[2] == sh and (
                    ("e", 0) in v[1] or st.rng["e"] == (const(v[1]),) * 2)
            if not good:
                raise Violation("a code of %d bits is not the one after the code before, at %s" % (
                    st.B, self.where(I)))
        self.obl += 1
        st.flags |= {f}
        if {"huffbits", "huffenc"} <= st.flags:
            st.flags = st.flags - {"huffbits", "huffenc"} | {"coded"}
            n = self.full(st)
            self.shift(st, "e", n)
            self.shift(st, "V", 1)
            self.shift(st, "K", 1)
            for k, s in enumerate(CODES):
                self.shift(st, s, 1 << k)

    def settle(self, st):
        for (f, t), v in list(st.facts.items()):
            if t[0] == "hb":
                if f == (None, 0) and not v and "coded" in st.flags:
                    st.flags |= {("sym", t[1])}
                del st.facts[(f, t)]

    def call(self, st, I):
        name = I.x[1] if isinstance(I.x, tuple) else None
        if name and name.startswith("llvm.memset"):
            p = self.val(st, I.args[0][1])
            if isinstance(p, tuple) and p[0] == "p" and p[1] == "self":
                n = const(self.val(st, I.args[2][1]))
                p = self.fold(p)
                if self.fold(p)[3] or n is None:
                    raise AnalysisError("memset at %s" % self.where(I))
                for f, w in (("bits", 4), ("huffval", 4), ("huffenc", 2), ("huffbits", 2), ("huffsym", 4)):
                    a, b = self.o[f], self.o[f] + 18 * w
                    if p[4] < b and a < p[4] + n:
                        if "coded" in st.flags or st.flags & {"huffbits", "huffenc"}:
                            raise Violation("table %s is cleared after codes were made, at %s" % (f, self.where(I)))
                        if f == "bits":
                            self.forget(st, "bits")
                        if f == "huffbits" and p[4] <= a and b <= p[4] + n and const(self.val(st, I.args[1][1])) == 0:
                            st.flags |= {"cleared"}
            return
        if name and (name.startswith("llvm.") or name in ("printf",)):
            if I.res:
                st.env[I.res] = UN
            return
        raise AnalysisError("call at %s" % self.where(I))

    def ret(self, st, v, I):
        self.obl += 1
        self.settle(st)
        r = self.normal(st)
        if st.flags & {"huffbits", "huffenc"}:
            raise Violation("a code is left half made, at %s" % self.where(I))
        if r is not None and not (st.M is not None and st.rng["e"][0] >= 1 << st.M):
            raise Violation("the function ends although codes%s may be missing, at %s" % (
                "" if r else " of %s bits" % st.B, self.where(I)))
        if "coded" in st.flags:
            for k in range(self.N):
                if ("sym", k) not in st.flags:
                    raise Violation("the value of code %d may not be led to it, at %s" % (k, self.where(I)))
