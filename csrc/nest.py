"""Sample loops of the lossless JPEG library, decided by affine invariants.

A function over the samples of an image is interpreted over LLVM IR between loop headers.  Counters, row and
tile pointers are affine forms over ghost quantities that say where in the image the function is (row, column,
component, place in the tile row, and their products with the row length); an affine hull per loop header and
class of positions is the loop's invariant (Karr), found by iteration.  Sample values are symbolic terms over
the samples around the current one.  Nothing is executed and nothing is handed to a solver."""
import os
import sys
from fractions import Fraction as F

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "hdl"))
import llir                                                    # noqa: E402
from count import Space                                        # noqa: E402
from llir import AnalysisError                                 # noqa: E402

SRC = "liblj92/lj92.c"
_mods = {}


def module(noinline):
    """the library with everything inlined but the named functions"""
    k = tuple(noinline)
    if k not in _mods:
        _mods[k] = llir.compile(
            SRC, passes="forceattrs,cgscc(inline),function(sroa,mem2reg,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;"
            "no-sink-common-insts>,adce)",
            flags=("-O1", "-Xclang", "-disable-llvm-passes"),
            optflags=["-inline-threshold=1000000", "-inline-cold-callsite-threshold=1000000", "-inlinecold-threshold=1000000"] + ["-force-attribute=%s:noinline" % f for f in k])
    return _mods[k]


def layout(struct, fields):
    d = llir.tempfile.mkdtemp(prefix="nest")
    try:
        p = os.path.join(d, "l.c")
        with open(p, "w") as f:
            f.write('#include "%s"\nconst unsigned long off[] = {%s};\n' % (
                os.path.join(llir.REPO, SRC),
                ", ".join("__builtin_offsetof(%s, %s)" % (struct, x) for x in fields) + ", sizeof(%s)" % struct))
        m = llir.compile(p)
        g = m.globals["off"]
        import re
        v = [int(x) for x in re.findall(r"i64 (-?\d+)", g[2])]
        return dict(zip(list(fields) + ["sizeof"], v))
    finally:
        llir.shutil.rmtree(d)


# ---- terms: (const, ((atom, coef), ...)); integers
def T(c=0, *atoms):
    d = {}
    for a, k in atoms:
        d[a] = d.get(a, 0) + k
    return (c, tuple(sorted(((a, k) for a, k in d.items() if k), key=repr)))


def tadd(a, b, k=1):
    return T(a[0] + k * b[0], *(list(a[1]) + [(x, k * q) for x, q in b[1]]))


def tscale(a, k):
    return T(a[0] * k, *[(x, q * k) for x, q in a[1]])


def atom(*a):
    return T(0, (a, 1))


BIG = 1 << 40
BOUNDS = {"S": (0, 65535), "D": (-65535, 65536), "L": (0, 65535), "byte": (0, 255), "P": (0, 65535),
          "u16": (0, 65535), "s16": (-32768, 32767), "shl1": (0, 1 << 30), "cnt": (0, 64), "nbits": (0, 32),
          "pix": (0, 65535), "?": (0, 65535), "E": (-32768, 32767)}


def trange(t):
    lo = hi = t[0]
    for a, k in t[1]:
        if a[0] in BOUNDS:
            l, h = BOUNDS[a[0]]
        elif a[0] == "ashr":
            l, h = trange(a[1])
            l, h = l >> a[2], h >> a[2]
        elif a[0] == "sdiv":
            l, h = trange(a[1])
            l, h = -(-l // a[2]) if l < 0 else l // a[2], h // a[2] if h >= 0 else -(-h // a[2])
        elif a[0] == "srem":
            l, h = trange(a[1])
            l, h = max(-a[2] + 1, min(0, l)), min(a[2] - 1, max(0, h))
        elif a[0] == "abs":
            l, h = trange(a[1])
            l, h = (0 if l <= 0 <= h else min(abs(l), abs(h))), max(abs(l), abs(h))
        elif a[0] == "load" and a[2] <= 2:
            l, h = 0, (1 << (8 * a[2])) - 1
        else:
            l, h = -BIG, BIG
        lo, hi = lo + min(k * l, k * h), hi + max(k * l, k * h)
    return lo, hi


def mod16(t):
    """the terms's value modulo 65536, canonically"""
    c, d = t[0], {}
    todo = list(t[1])
    while todo:
        a, k = todo.pop()
        if k % 65536 == 0:
            continue
        if a[0] in ("u16", "s16") or a[0] == "srem" and a[2] % 65536 == 0:
            c += k * a[1][0]
            todo += [(x, q * k) for x, q in a[1][1]]
        else:
            d[a] = d.get(a, 0) + k
    return T(c % 65536, *[(a, k % 65536) for a, k in d.items()])


def u16(t):
    m = mod16(t)
    if not m[1]:
        return m
    lo, hi = trange(m)
    return m if lo >= 0 and hi <= 65535 else atom("u16", m)


def s16(t):
    lo, hi = trange(t)
    if lo >= -32768 and hi <= 32767:
        return t
    m = mod16(t)
    if not m[1]:
        return T(m[0] - 65536 if m[0] > 32767 else m[0])
    return atom("s16", m)


def tmap(t, f):
    """rewrite the atoms of a term; f(atom) -> term or None (unknown)"""
    r = T(t[0])
    for a, k in t[1]:
        if a[0] in ("u16", "s16", "ashr", "sdiv", "srem", "L", "shl1", "nbits", "abs", "load", "byte", "clz"):
            i = 2 if a[0] == "load" else 1
            s = tmap(a[i] if i == 1 else a[3], f) if i == 1 else tmap(a[3], f)
            if s is None:
                return None
            n = u16(s) if a[0] == "u16" else s16(s) if a[0] == "s16" else \
                atom(*((a[0], s) + a[2:])) if i == 1 else atom(a[0], a[1], a[2], s)
        else:
            n = f(a)
        if n is None:
            return None
        r = tadd(r, n, k)
    return r


def atoms(t):
    for a, _ in t[1]:
        yield a
        for x in a[1:]:
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple):
                yield from atoms(x)


# ---- affine forms over coordinates (names): (const, {name: coef})
def fadd(a, b, k=1):
    d = dict(a[1])
    for n, q in b[1].items():
        d[n] = d.get(n, 0) + k * q
    return (a[0] + k * b[0], {n: q for n, q in d.items() if q})


def fc(c):
    return (F(c), {})


def fv(n, k=1):
    return (F(0), {n: F(k)})


def fsc(a, k):
    return (a[0] * k, {n: q * k for n, q in a[1].items() if q * k})


# values
class N:
    """a number: affine form"""

    def __init__(self, form):
        self.f = form


class Dt:
    """sample data: a term"""

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Dt) and self.t == o.t


class Pt:
    """pointer: object name, affine byte offset, and a term added to it"""

    def __init__(self, obj, form, t=(0, ())):
        self.obj, self.f, self.t = obj, form, t


class Cd:
    """a condition: ("n", op, form op 0) or ("t", key, polarity) or None"""

    def __init__(self, c):
        self.c = c


class Un:
    def __eq__(self, o):
        return isinstance(o, Un)


UN = Un()
OLD = Un()                      # an earlier sample's value


class Violation(Exception):
    pass


class Infeasible(Exception):
    pass


class State:
    """what is known at a point of a path"""

    def __init__(self):
        self.env = {}           # register -> value
        self.cells = {}         # (object, offset) -> value; fields of the control structure
        self.space = None
        self.names = []         # coordinates of the space
        self.facts = []         # forms >= 0
        self.G = {}             # ghost -> form
        self.tags = {}
        self.flags = frozenset()
        self.known = {}         # condition key -> bool
        self.even = None        # which half of the row cache even rows use
        self.trail = []
        self.unsure = False

    def copy(self):
        s = State()
        s.__dict__.update(self.__dict__)
        s.env, s.cells, s.facts, s.G = dict(self.env), dict(self.cells), list(self.facts), dict(self.G)
        s.tags, s.known, s.trail = dict(self.tags), dict(self.known), list(self.trail)
        return s


class Nest:
    """one function in one scenario.  Subclasses give the fields' values and the sample events."""
    LIMIT = 4000

    def __init__(self, mod, fname, ncomp):
        self.m = mod
        if fname not in mod.funcs:
            raise AnalysisError("no function %s in %s" % (fname, SRC))
        self.f = mod.funcs[fname]
        self.Ty = mod.types
        self.many = ncomp
        self.ghosts = ["C", "U", "R", "V", "RX", "VX", "a", "b", "S", "skip"] + \
            (["K", "J", "Cn", "Un", "xy"] if ncomp else [])
        self.cfg()
        self.paths = self.blocks = self.obl = 0
        self.violations = []
        self.opaque = False                                    # unknown conditions are expected
        self.undecided = None

    # ---- control flow: headers and liveness
    def cfg(self):
        f = self.f
        self.succ = {}
        for b in f.order:
            t = f.blocks[b][-1]
            self.succ[b] = list(t.args) if t.op == "br" else \
                [t.args[0]] + [x for _, x in t.args[1]] if t.op == "switch" else []
        seen, order, stack = set(), [], [(f.order[0], iter(self.succ[f.order[0]]))]
        seen.add(f.order[0])
        onst = {f.order[0]}
        self.heads = set()
        while stack:
            b, it = stack[-1]
            for s in it:
                if s in onst:
                    self.heads.add(s)
                elif s not in seen:
                    seen.add(s)
                    onst.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                stack.pop()
                onst.discard(b)
                order.append(b)

        def uses(v, out):
            if isinstance(v, tuple):
                if v and v[0] == "reg":
                    out.add(v[1])
                else:
                    for x in v:
                        uses(x, out)
            elif isinstance(v, list):
                for x in v:
                    uses(x, out)
        live = {b: set() for b in f.order}
        ch = True
        while ch:
            ch = False
            for b in order:
                l = set()
                for s in self.succ[b]:
                    l |= live[s] - {I.res for I in f.blocks[s] if I.op == "phi"}
                    for I in f.blocks[s]:
                        if I.op == "phi":
                            for v, p in I.args:
                                if p == b:
                                    uses(v, l)
                for I in reversed(f.blocks[b]):
                    if I.op == "phi":
                        l.add(I.res) if False else None
                        continue
                    l.discard(I.res)
                    if I.op == "br":
                        uses(I.x, l)
                    elif I.op == "switch":
                        uses(I.x, l)
                    else:
                        uses(I.args, l)
                        if I.op == "call":
                            uses(I.x, l)
                # values of phis of b itself stay live in b
                if l != live[b]:
                    live[b] |= l
                    ch = True
        self.live = live

    def where(self, I):
        return self.m.where(I)

    # ---- deciding about forms
    def at(self, st, form):
        """(const over the point, values over the directions)"""
        ix = {n: i for i, n in enumerate(st.names)}
        p = form[0] + sum(k * st.space.point[ix[n]] for n, k in form[1].items())
        ds = [sum(k * d[ix[n]] for n, k in form[1].items()) for _, d in st.space.dirs]
        return p, ds

    def zero(self, st, form):
        p, ds = self.at(st, form)
        return p == 0 and not any(ds)

    def constant(self, st, form):
        p, ds = self.at(st, form)
        return p if not any(ds) else None

    def over_ghosts(self, st, form):
        ix = {n: i for i, n in enumerate(st.names)}
        r = st.space.express(form[0], {ix[n]: k for n, k in form[1].items()},
                             [ix[g] for g in self.ghosts])
        if r is None:
            return None
        return (r[0], {g: a for g, a in zip(self.ghosts, r[1]) if a})

    def nonneg(self, st, form, depth=3):
        f = self.over_ghosts(st, form)
        if f is None:
            return False
        fs = getattr(st, "gfacts", None)
        if fs is None or st.gfn != (len(st.facts), id(st.space)):
            fs = []
            for x in st.facts:
                y = self.over_ghosts(st, x)
                if y is not None and y[1]:
                    fs.append(y)
            st.gfacts, st.gfn = fs, (len(st.facts), id(st.space))
        return self.farkas(f, fs, depth)

    def farkas(self, f, fs, depth):
        if not f[1]:
            return f[0] >= 0
        if depth == 0:
            return False
        # remove the first coordinate of f with a fact of the same sign in it
        n = sorted(f[1])[0]
        for q in fs:
            k = q[1].get(n, 0)
            if k and (k > 0) == (f[1][n] > 0):
                r = fadd(f, q, -f[1][n] / k)
                if len(r[1]) <= len(f[1]) + 1 and self.farkas(r, fs, depth - 1 if len(r[1]) >= len(f[1]) else depth):
                    return True
        return False

    def decide(self, st, op, form):
        """truth of `form op 0` or None"""
        c = self.constant(st, form)
        if c is not None:
            return {"eq": c == 0, "ne": c != 0, "lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[op]
        if op in ("eq", "ne"):
            if self.nonneg(st, fadd(form, fc(-1))) or self.nonneg(st, fadd(fsc(form, F(-1)), fc(-1))):
                return op == "ne"
            return None
        if op in ("lt", "le"):
            form, op = fsc(form, F(-1)), {"lt": "gt", "le": "ge"}[op]
        if op == "gt":
            form = fadd(form, fc(-1))
        if self.nonneg(st, form):
            return True
        if self.nonneg(st, fadd(fsc(form, F(-1)), fc(-1))):
            return False
        return None

    def meet(self, st, form):
        """form == 0 from here on"""
        ix = {n: i for i, n in enumerate(st.names)}
        sp = st.space.meet(form[0], {ix[n]: k for n, k in form[1].items()})
        if sp is None:
            raise Infeasible()
        st.space = sp
        for x in st.facts:
            c = self.constant(st, x)
            if c is not None and c < 0:
                raise Infeasible()

    def fact(self, st, form):
        c = self.constant(st, form)
        if c is not None:
            if c < 0:
                raise Infeasible()
            return
        st.facts.append(form)

    # ---- ghost quantities
    def g(self, st, n):
        if n in st.G:
            return st.G[n]
        G = st.G
        if not self.many:
            if n in ("K", "J"):
                return fc(0)
            if n == "Cn":
                return G["C"]
            if n == "Un":
                return G["U"]
        if n == "n":
            return fadd(fadd(self.g(st, "K"), self.g(st, "J")), fc(1))
        if n == "x":
            return fadd(fadd(G["C"], G["U"]), fc(1))
        if n == "y":
            return fadd(fadd(G["R"], G["V"]), fc(1))
        if n == "X":
            return fadd(fadd(self.g(st, "Cn"), self.g(st, "Un")), self.g(st, "n"))
        if n == "w":
            return fadd(fadd(G["a"], G["b"]), fc(1))
        if n == "T":
            return fadd(fadd(G["RX"], G["VX"]), self.g(st, "X"))
        if n == "I":                                            # index in the row
            return fadd(self.g(st, "Cn"), self.g(st, "K"))
        if n == "N":                                            # index in the image
            return fadd(G["RX"], self.g(st, "I"))
        raise KeyError(n)

    def settle(self, st):
        """facts of the current tags"""
        t = st.tags
        g = lambda n: self.g(st, n)                             # noqa: E731
        for n in ("C", "U", "V", "a", "b") + (("K", "J") if self.many else ()):
            if t[n]:
                self.fact(st, fadd(g(n), fc(-1)))
            else:
                self.meet(st, g(n))
        if self.many:
            self.fact(st, fadd(fadd(g("K"), g("J")), fc(-1)))
            for n in "CU":
                if t[n]:
                    self.fact(st, fadd(g(n + "n"), g("n"), -1))
                    self.fact(st, fadd(g(n + "n"), g(n), -1))
                else:
                    self.meet(st, g(n + "n"))
        if t["R"]:
            self.fact(st, fadd(g("R"), fc(-1 if t["R"] == 1 else -2)))
            self.fact(st, fadd(g("RX"), g("X"), -1))
        else:
            self.meet(st, g("R"))
            self.meet(st, g("RX"))
        if t["V"]:
            self.fact(st, fadd(g("VX"), g("X"), -1))
        else:
            self.meet(st, g("VX"))

    def move(self, st):
        """to the next sample: the states after it"""
        t = st.tags
        G = dict(st.G)
        g = lambda n: self.g(st, n)                             # noqa: E731
        nt = dict(t)
        shift = None
        opens = []
        if t["b"]:
            G["a"], G["b"] = fadd(g("a"), fc(1)), fadd(g("b"), fc(-1))
            nt["a"] = 1
        else:
            G["a"], G["b"] = fc(0), fadd(g("a"), g("b"))
            G["S"] = fadd(g("S"), g("skip"))
            nt["a"] = 0
        opens.append("b")
        if self.many and t["J"]:
            G["K"], G["J"] = fadd(g("K"), fc(1)), fadd(g("J"), fc(-1))
            nt["K"] = 1
            opens.append("J")
            shift = (0, 0, 1)
        else:
            if self.many:
                G["K"], G["J"] = fc(0), fadd(g("K"), g("J"))
                nt["K"], nt["J"] = 0, 1
            if t["U"]:
                G["C"], G["U"] = fadd(g("C"), fc(1)), fadd(g("U"), fc(-1))
                if self.many:
                    G["Cn"], G["Un"] = fadd(g("Cn"), g("n")), fadd(g("Un"), g("n"), -1)
                nt["C"] = 1
                opens.append("U")
                shift = (0, 1, 0) if not self.many else None
            elif t["V"]:
                G["C"], G["U"] = fc(0), fadd(g("C"), g("U"))
                if self.many:
                    G["Cn"], G["Un"] = fc(0), fadd(g("Cn"), g("Un"))
                nt["C"] = 0
                nt["U"] = t["C"]                                # one column or more
                G["R"], G["V"] = fadd(g("R"), fc(1)), fadd(g("V"), fc(-1))
                G["RX"], G["VX"] = fadd(g("RX"), g("X")), fadd(g("VX"), g("X"), -1)
                nt["R"] = {0: 1, 1: 2, 2: 1}[t["R"]]
                opens.append("V")
            else:
                s = st.copy()
                s.flags = frozenset(["end"])
                self.shift(s, None)
                return [s]
        out = []
        for m in range(1 << len(opens)):
            s = st.copy()
            s.G = dict(G)
            s.tags = dict(nt)
            for i, o in enumerate(opens):
                s.tags[o] = m >> i & 1
            s.flags = frozenset()
            try:
                self.settle(s)
            except Infeasible:
                continue
            self.shift(s, shift)
            out.append(s)
        return out

    STALE = ("D", "P")

    def shift(self, st, d):
        """sample terms are relative to the sample moved to"""
        def f(a):
            if a[0] == "S":
                return None if d is None else atom("S", a[1] - d[0], a[2] - d[1], a[3] - d[2])
            if a[0] in self.STALE:
                return None
            return T(0, (a, 1))

        def val(v):
            if isinstance(v, Dt):
                t = tmap(v.t, f)
                return OLD if t is None else Dt(t)
            if isinstance(v, Pt) and v.t[1]:
                t = tmap(v.t, f)
                return UN if t is None else Pt(v.obj, v.f, t)
            if isinstance(v, Cd) and v.c and v.c[0] in ("t", "and", "or"):
                return Cd(None)
            return v
        st.env = {k: val(v) for k, v in st.env.items()}
        st.cells = {k: val(v) for k, v in st.cells.items()}
        st.known = {k: v for k, v in st.known.items() if tmap(k[1], f) == k[1]}

    def replace(self, st, old, new):
        """the term old is from now on called new (an atom)"""
        if len(old[1]) != 1 or old[0] or old[1][0][1] != 1:
            return
        o = old[1][0][0]

        def sub(t):
            r = T(t[0])
            for a, k in t[1]:
                if a == o:
                    r = tadd(r, new, k)
                else:
                    b = tuple(sub(x) if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple) else x
                              for x in a)
                    r = tadd(r, T(0, (b, 1)), k)
            return r

        def val(v):
            if isinstance(v, Dt):
                return Dt(sub(v.t))
            if isinstance(v, Pt) and v.t[1]:
                return Pt(v.obj, v.f, sub(v.t))
            return v
        st.env = {k: val(v) for k, v in st.env.items()}
        st.cells = {k: val(v) for k, v in st.cells.items()}
        st.known = {(k[0], sub(k[1])): v for k, v in st.known.items()}

    # ---- values
    def val(self, st, v):
        k = v[0]
        if k == "reg":
            return st.env.get(v[1], UN)
        if k == "int":
            return N(fc(v[1]))
        if k == "null":
            return Pt(None, fc(0))
        if k == "glob":
            return Pt("@" + v[1], fc(0))
        if k == "zero":
            t = self.Ty.resolve(v[1])
            return Pt(None, fc(0)) if t[0] == "ptr" else N(fc(0)) if t[0] == "i" else UN
        if k == "gep":
            return self.gep(st, v[1], [self.val(st, a) for a in v[2]])
        return UN

    def term(self, st, v):
        """the value as a term"""
        if isinstance(v, Dt):
            return v.t
        if isinstance(v, N):
            c = self.constant(st, v.f)
            if c is not None and c.denominator == 1:
                return T(int(c))
        return None

    def num(self, v):
        return v.f if isinstance(v, N) else None

    def mul(self, st, a, b):
        # a factor that is the number of components now may be it only in the classes seen so far: the product
        # with the ghost is as true, and stays true
        for p, q in ((a, b), (b, a)):
            g = lambda n: self.g(st, n)                         # noqa: E731
            if self.zero(st, fadd(p, g("n"), -1)):
                h = self.parts(st, q, ("C", "U"))
                if h:
                    return fadd(fadd(fsc(g("n"), h[0]), fsc(g("Cn"), h[1])), fsc(g("Un"), h[2]))
                if self.many and self.zero(st, fadd(q, fv("xy"), -1)):
                    return g("T")
            if self.zero(st, fadd(p, g("X"), -1)):
                h = self.parts(st, q, ("R", "V"))
                if h:
                    return fadd(fadd(fsc(g("X"), h[0]), fsc(g("RX"), h[1])), fsc(g("VX"), h[2]))
            if self.many and self.zero(st, fadd(p, g("x"), -1)) and self.zero(st, fadd(q, g("y"), -1)):
                return fv("xy")
        for p, q in ((a, b), (b, a)):
            c = self.constant(st, p)
            if c is not None:
                return fsc(q, c)
        return None

    def parts(self, st, form, names):
        """form = c0 + c1*first + c2*second over the current ghosts"""
        g1, g2 = (self.g(st, n) for n in names)
        # coefficients from two directions of the space
        one = (F(1), {})
        import itertools
        p, ds = self.at(st, form)
        p1, d1 = self.at(st, g1)
        p2, d2 = self.at(st, g2)
        rows = list(zip(d1, d2, ds))
        sol = None
        for i, j in itertools.combinations(range(len(rows)), 2):
            a, b, c = rows[i]
            d, e, f = rows[j]
            det = a * e - b * d
            if det:
                sol = ((c * e - b * f) / det, (a * f - c * d) / det)
                break
        if sol is None:
            cand = [r for r in rows if r[0] or r[1]]
            if not cand:
                sol = (F(0), F(0))
            else:
                a, b, c = cand[0]
                sol = (c / a, F(0)) if a else (F(0), c / b)
        x, y = sol
        if any(x * a + y * b != c for a, b, c in rows):
            return None
        return (p - x * p1 - y * p2, x, y)

    def gep(self, st, ty, vs):
        p = vs[0]
        if not isinstance(p, Pt):
            return UN
        form, t, cur = p.f, p.t, ty
        for i, v in enumerate(vs[1:]):
            if i == 0:
                sz = self.Ty.size(ty)
            else:
                r = self.Ty.resolve(cur)
                if r[0] == "struct":
                    c = self.constant(st, v.f)
                    fo, cur = self.Ty.field(r, int(c))
                    form = fadd(form, fc(fo))
                    continue
                cur = r[2]
                sz = self.Ty.size(cur)
            if isinstance(v, N):
                form = fadd(form, v.f, sz)
            elif isinstance(v, Dt):
                t = tadd(t, v.t, sz)
            else:
                return Pt(p.obj, form, tadd(t, atom("?", "offset")))
        return Pt(p.obj, form, t)

    def binop(self, st, I, a, b):
        op, n = I.op, self.Ty.resolve(I.ty)[1]
        if isinstance(a, Cd) or isinstance(b, Cd):
            ca = a.c if isinstance(a, Cd) else None
            if isinstance(b, N) and isinstance(a, Cd) and op == "xor" and a.c is not None:
                return Cd(negate(a.c)) if self.constant(st, b.f) % 2 else a
            if op in ("and", "or"):
                a, b = (Cd(("k", self.constant(st, x.f) != 0)) if isinstance(x, N) and
                        self.constant(st, x.f) is not None else x if isinstance(x, Cd) else Cd(None) for x in (a, b))
                for x, y in ((a, b), (b, a)):
                    if x.c is not None and x.c[0] == "k":
                        return y if x.c[1] == (op == "and") else x
                return Cd((op, a.c, b.c))
            return Cd(None)
        fa, fb = self.num(a), self.num(b)
        if fa is not None and fb is not None:
            ka, kb = self.constant(st, fa), self.constant(st, fb)
            if op == "add":
                return N(fadd(fa, fb))
            if op == "sub":
                return N(fadd(fa, fb, -1))
            if op == "mul":
                r = self.mul(st, fa, fb)
                return UN if r is None else N(r)
            if op == "shl" and kb is not None and 0 <= kb < n:
                return N(fsc(fa, F(1 << int(kb))))
            if ka is not None and kb is not None and ka.denominator == kb.denominator == 1:
                x, y = int(ka), int(kb)
                if op in ("sdiv", "srem") and y:
                    q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                    return N(fc(q if op == "sdiv" else x - q * y))
                if op in ("udiv", "urem", "lshr") and x >= 0 and y > 0 or op == "lshr" and x >= 0:
                    return N(fc({"udiv": lambda: x // y, "urem": lambda: x % y, "lshr": lambda: x >> y}[op]()))
                if op == "ashr":
                    return N(fc(x >> y))
                if op in ("and", "or", "xor"):
                    return N(fc({"and": x & y, "or": x | y, "xor": x ^ y}[op]))
            if op == "and" and 1 in (ka, kb) or op in ("urem", "srem") and kb == 2 and self.nonneg(st, fa):
                r = self.odd(st, fb if ka == 1 and op == "and" else fa)
                if r is not None:
                    return N(fc(r))
            return UN
        ta, tb = self.term(st, a), self.term(st, b)
        if ta is None or tb is None:
            return UN
        kb = tb[0] if not tb[1] else None
        ka = ta[0] if not ta[1] else None
        if op == "add" or op == "or" and self.disjoint(ta, tb):
            r = tadd(ta, tb)
        elif op == "sub":
            r = tadd(ta, tb, -1)
        elif op == "mul" and (ka is not None or kb is not None):
            r = tscale(tb, ka) if ka is not None else tscale(ta, kb)
        elif op == "shl" and kb is not None and 0 <= kb < n:
            r = tscale(ta, 1 << kb)
        elif op == "shl" and ka is not None:
            r = tscale(atom("shl1", tb), ka)
        elif op in ("ashr", "lshr") and kb is not None and 0 <= kb < n and (op == "ashr" or trange(ta)[0] >= 0):
            r = ta if kb == 0 else atom("ashr", ta, kb)
        elif op in ("sdiv", "udiv") and kb and kb & (kb - 1) == 0 and kb > 0 and trange(ta)[0] >= 0:
            r = ta if kb == 1 else atom("ashr", ta, kb.bit_length() - 1)
        elif op == "sdiv" and kb and kb > 0 and n > 16:
            r = atom("sdiv", ta, kb)
        elif op in ("srem",) and kb and kb > 0:
            lo, hi = trange(ta)
            r = ta if -kb < lo and hi < kb else atom("srem", ta, kb)
        elif op in ("urem", "and") and kb is not None and (kb + (op == "and")) == 65536:
            r = u16(ta)
        else:
            return UN
        if n <= 16:
            r = u16(r) if n == 16 else r if 0 <= trange(r)[0] and trange(r)[1] < 1 << n else None
        return UN if r is None else Dt(r)

    def disjoint(self, a, b):
        for p, q in ((a, b), (b, a)):
            lo, hi = trange(q)
            if lo < 0:
                continue
            j = 1 << hi.bit_length()
            if p[0] % j == 0 and all(k % j == 0 for _, k in p[1]) and trange(p)[0] >= 0:
                return True
        return False

    def icmp(self, st, I, a, b):
        pred = I.x
        if isinstance(a, Pt) and isinstance(b, Pt):
            if a.obj is None or b.obj is None:
                same = a.obj is None and b.obj is None
                return Cd(("k", same if pred == "eq" else not same)) if pred in ("eq", "ne") else Cd(None)
            if a.obj == b.obj and not a.t[1] and not b.t[1]:
                p = pred if pred in ("eq", "ne") else pred[1:]
                return Cd(("n", p, fadd(a.f, b.f, -1)))
            return Cd(None)
        if isinstance(a, Cd) and isinstance(b, N):
            c = self.constant(st, b.f)
            if a.c is not None and pred in ("eq", "ne") and c is not None:
                pos = (c != 0) == (pred == "eq")
                return a if pos else Cd(negate(a.c))
            return Cd(None)
        fa, fb = self.num(a), self.num(b)
        if fa is not None and fb is not None:
            if pred[0] == "u":
                for x in (fa, fb):
                    if not self.decide(st, "ge", x):
                        return Cd(None)
            p = pred if pred in ("eq", "ne") else pred[1:]
            return Cd(("n", p, fadd(fa, fb, -1)))
        ta, tb = self.term(st, a), self.term(st, b)
        if ta is None or tb is None:
            return Cd(None)
        if pred[0] == "u" and (trange(ta)[0] < 0 or trange(tb)[0] < 0):
            return Cd(None)
        d = tadd(ta, tb, -1)
        p = pred if pred in ("eq", "ne") else pred[1:]
        return Cd(tcond(p, d))

    # ---- memory
    def load(self, st, p, ty, I):
        t = self.Ty.resolve(ty)
        n = self.Ty.size(t)
        if isinstance(p, Pt) and p.obj is not None:
            c = self.constant(st, p.f)
            if c is not None and not p.t[1]:
                k = (p.obj, int(c) + p.t[0])
                if k in st.cells:
                    return st.cells[k]
            v = self.read(st, p, n, I)
            if v is not None:
                return v
        elif isinstance(p, Pt):
            raise Violation("null pointer read at %s" % self.where(I))
        return UN

    def store(self, st, p, v, ty, I):
        n = self.Ty.size(ty)
        if not isinstance(p, Pt):
            self.unclear(st, "write through an unknown pointer at %s" % self.where(I))
        if p.obj is None:
            raise Violation("null pointer written at %s" % self.where(I))
        r = self.write(st, p, v, n, I)
        if r is not None:
            return r
        c = self.constant(st, p.f)
        if c is None or p.t[1]:
            raise AnalysisError("write at a variable offset of %s at %s" % (p.obj, self.where(I)))
        st.cells[(p.obj, int(c) + p.t[0])] = v
        return None

    # for subclasses
    def read(self, st, p, n, I):
        return None

    def write(self, st, p, v, n, I):
        """None: an ordinary cell; otherwise the list of states that follow"""
        return None

    def call(self, st, name, args, I):
        """(result, states or None)"""
        raise AnalysisError("call of %s at %s" % (name, self.where(I)))

    def ret(self, st, v, I):
        pass

    # ---- walking
    def run(self, starts):
        """starts: states at the function's entry"""
        self.inv = {}
        todo = []
        for s in starts:
            self.walk(s, self.f.order[0], None, todo)
        rounds = 0
        while todo:
            key = todo.pop()
            rounds += 1
            if rounds > self.LIMIT * 4:
                raise AnalysisError("no invariant of %s within the bound" % self.f.name)
            self.walk(self.resume(key), key[0], None, todo)

    def resume(self, key):
        names, space, env, cells, tags, flags, even = self.inv[key]
        st = State()
        st.names, st.space = names, space
        st.G = {g: fv(g) for g in self.ghosts}
        st.tags, st.flags, st.even = dict(tags), flags, even
        st.env = {}
        for tgt, src in ((st.env, env), (st.cells, cells)):
            for k, v in src.items():
                tgt[k] = v
        st.facts = []
        self.settle(st)
        return st

    def arrive(self, st, b, todo):
        """at loop header b with its phis assigned"""
        keep = self.live[b] | {I.res for I in self.f.blocks[b] if I.op == "phi"}
        coords, forms, env, cells, kinds = list(self.ghosts), [self.g(st, g) if g != "xy" else fv("xy")
                                                               for g in self.ghosts], {}, {}, []

        def put(tgt, k, v, nm):
            if isinstance(v, N):
                coords.append(nm)
                forms.append(v.f)
                tgt[k] = N(fv(nm))
                # zero, positive or neither: a counter at its start is told from one at its end
                kinds.append((nm, "0" if self.zero(st, v.f) else
                              "+" if self.decide(st, "gt", v.f) else "n"))
            elif isinstance(v, Pt):
                if v.t[1]:
                    return
                if v.obj is None:
                    tgt[k] = v
                    kinds.append((nm, None))
                    return
                coords.append(nm)
                forms.append(fadd(v.f, fc(v.t[0])))
                tgt[k] = Pt(v.obj, fv(nm))
                kinds.append((nm, v.obj))
            elif isinstance(v, Dt):
                tgt[k] = v
            elif isinstance(v, Cd) and v.c is not None and v.c[0] == "k":
                tgt[k] = v
                kinds.append((nm, v.c[1]))
        for r in sorted(k for k in keep if k in st.env):
            put(env, r, st.env[r], "r:" + r)
        for k in sorted(st.cells, key=repr):
            put(cells, k, st.cells[k], "m:%s+%d" % k)
        ix = {n: i for i, n in enumerate(st.names)}
        rows = [(f[0], {ix[n]: q for n, q in f[1].items()}) for f in forms]
        sp = st.space.map(rows)
        key = (b, tuple(sorted(st.tags.items())), st.flags, st.even, tuple(kinds))
        old = self.inv.get(key)
        if old is None:
            if len(self.inv) > self.LIMIT:
                raise AnalysisError("too many classes of positions in %s" % self.f.name)
            self.inv[key] = (coords, sp, env, cells, dict(st.tags), st.flags, st.even)
            todo.append(key)
            return
        names, osp, oenv, ocells = old[:4]
        nenv = {k: v for k, v in oenv.items() if not isinstance(v, Dt) or env.get(k) == v}
        ncells = {k: v for k, v in ocells.items() if not isinstance(v, Dt) or cells.get(k) == v}
        if osp.has(sp) and len(nenv) == len(oenv) and len(ncells) == len(ocells):
            return
        self.inv[key] = (names, osp.join(sp), nenv, ncells) + old[4:]
        if key not in todo:
            todo.append(key)

    def walk(self, st, b, prev, todo):
        """all paths from the start of block b (its phis assigned when prev is None) to loop headers"""
        stack = [(st, b, 0)]
        while stack:
            st, b, i = stack.pop()
            try:
                for st2, b2, i2, p2 in self.block(st, b, i):
                    if p2 is not None:
                        new = {}
                        for I in self.f.blocks[b2]:
                            if I.op != "phi":
                                break
                            new[I.res] = self.val(st2, dict((p, v) for v, p in I.args)[p2])
                        st2.env.update(new)
                        if b2 in self.heads:
                            self.paths += 1
                            self.arrive(st2, b2, todo)
                            continue
                    stack.append((st2, b2, i2))
            except Infeasible:
                continue
            except Violation as e:
                self.paths += 1
                self.violations.append((str(e), st.unsure))
                if not st.unsure:
                    raise

    def block(self, st, b, i):
        """run block b from instruction i; the states to continue with: (state, block, index, predecessor)"""
        ins = self.f.blocks[b]
        self.blocks += 1
        while i < len(ins):
            I = ins[i]
            i += 1
            o = I.op
            if o == "phi":
                continue
            if o == "br":
                if len(I.args) == 1:
                    return [(st, I.args[0], 0, b)]
                return [(s, I.args[0 if v else 1], 0, b) for s, v in self.branch(st, self.val(st, I.x), I)]
            if o == "switch":
                v = self.val(st, I.x)
                t = self.term(st, v)
                if t is not None and not t[1]:
                    return [(st, dict(I.args[1]).get(t[0], I.args[0]), 0, b)]
                out = []
                for tgt in {x for _, x in I.args[1]} | {I.args[0]}:
                    out.append((st.copy(), tgt, 0, b))
                return out
            if o == "ret":
                self.ret(st, self.val(st, I.args[0]) if I.args else None, I)
                return []
            if o == "unreachable":
                return []
            if o == "select":
                c = self.val(st, I.args[0])
                r = self.branch(st, c, I)
                if len(r) == 1:
                    s, v = r[0]
                    s.env[I.res] = self.val(s, I.args[1 if v else 2])
                    st = s
                    continue
                out = []
                for s, v in r:
                    s.env[I.res] = self.val(s, I.args[1 if v else 2])
                    out.append((s, b, i, None))
                return out
            r = self.inst(st, I)
            if r is not None:
                return [(s, b, i, None) for s in r]
        raise AnalysisError("block %s does not end" % b)

    def branch(self, st, v, I):
        """[(state, truth)]"""
        if isinstance(v, N):
            c = self.constant(st, v.f)
            if c is not None:
                return [(st, c != 0)]
        c = v.c if isinstance(v, Cd) else None
        if c is None:
            if not self.opaque:
                self.undecided = self.undecided or "the condition at %s" % self.where(I)
                st.unsure = True
            return [(st, True), (st.copy(), False)]
        if c[0] == "k":
            return [(st, c[1])]
        if c[0] == "n":
            d = self.decide(st, c[1], c[2])
            if d is not None:
                return [(st, d)]
            out = []
            self.undecided = self.undecided or "the condition at %s" % self.where(I)
            for val in (True, False):
                s = st.copy()
                s.unsure = True
                op = c[1] if val else {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}[c[1]]
                try:
                    if op == "eq":
                        self.meet(s, c[2])
                    elif op in ("ge", "gt"):
                        self.fact(s, fadd(c[2], fc(0 if op == "ge" else -1)))
                    elif op in ("le", "lt"):
                        self.fact(s, fadd(fsc(c[2], F(-1)), fc(0 if op == "le" else -1)))
                except Infeasible:
                    continue
                out.append((s, val))
            return out
        if c[0] in ("and", "or"):
            out = []
            for s, v in self.branch(st, Cd(c[1]), I):
                out += self.branch(s, Cd(c[2]), I) if v == (c[0] == "and") else [(s, v)]
            return out
        _, key, pol = c
        if key in st.known:
            return [(st, st.known[key] == pol)]
        out = []
        for val in (True, False):
            s = st.copy()
            s.known[key] = val == pol
            if not self.consistent(s):
                continue
            out.append((s, val))
        return out

    def consistent(self, st):
        return True

    def inst(self, st, I):
        o = I.op
        if o == "load":
            st.env[I.res] = self.load(st, self.val(st, I.args[0]), I.ty, I)
        elif o == "store":
            return self.store(st, self.val(st, I.args[1]), self.val(st, I.args[0]), I.ty, I)
        elif o == "getelementptr":
            st.env[I.res] = self.gep(st, I.ty, [self.val(st, v) for _, v in I.args])
        elif o == "icmp":
            st.env[I.res] = self.icmp(st, I, self.val(st, I.args[0]), self.val(st, I.args[1]))
        elif o in ("sext", "zext", "trunc", "freeze", "bitcast"):
            v = self.val(st, I.args[0])
            src, dst = self.Ty.resolve(I.x), self.Ty.resolve(I.ty)
            st.env[I.res] = self.cast(st, o, v, src, dst)
        elif o in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "sdiv", "urem", "srem"):
            st.env[I.res] = self.binop(st, I, self.val(st, I.args[0]), self.val(st, I.args[1]))
        elif o == "call":
            if I.x[0] != "glob":
                raise AnalysisError("call through a pointer at %s" % self.where(I))
            nm = I.x[1]
            if nm.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "printf", "free", "llvm.memset", "memset")):
                if nm == "free":
                    self.freed(st, self.val(st, I.args[0][1]), I)
                return None
            args = [self.val(st, a[1]) for a in I.args]
            if nm.startswith("llvm.abs") or nm in ("abs", "labs"):
                t = self.term(st, args[0])
                r = UN if t is None else Dt(t if trange(t)[0] >= 0 else atom("abs", t))
                states = None
            elif nm.startswith("llvm.ctlz.i32"):
                t = self.term(st, args[0])
                r = UN if t is None else Dt(tadd(T(32), atom("nbits", t), -1))
                states = None
            else:
                r, states = self.call(st, nm, args, I)
            if states is None:
                states = [st]
            for s in states:
                if I.res:
                    s.env[I.res] = r
            return states
        elif o == "alloca":
            st.env[I.res] = Pt("local:" + I.res, fc(0))
        else:
            st.env[I.res] = UN
        return None

    def freed(self, st, p, I):
        pass

    def unclear(self, st, why):
        """not decided: what the analysis does not know is no violation"""
        st.unsure = True
        self.undecided = self.undecided or why
        raise Violation(why)

    def odd(self, st, form):
        """the number modulo 2 where the row decides it, or None"""
        f = self.over_ghosts(st, form)
        if f is None or f[0].denominator != 1:
            return None
        r = int(f[0])
        for g, k in f[1].items():
            if k.denominator != 1 or k % 2 and g != "R":
                return None
            if k % 2:
                r += st.tags["R"] % 2
        return r % 2

    def cast(self, st, o, v, src, dst):
        if o in ("freeze", "bitcast"):
            return v
        if isinstance(v, Cd):
            if o == "zext" and v.c is not None and v.c[0] == "k":
                return N(fc(int(v.c[1])))
            return v if o == "zext" else Cd(None)
        if isinstance(v, N):
            c = self.constant(st, v.f)
            if c is not None:
                c = int(c)
                if o == "trunc":
                    c &= (1 << dst[1]) - 1
                    if dst[1] >= 32 and c >> (dst[1] - 1):
                        c -= 1 << dst[1]
                elif o == "zext":
                    c &= (1 << src[1]) - 1
                elif src[1] < 32 and c >> (src[1] - 1) & 1 and c > 0:
                    c -= 1 << src[1]
                return N(fc(c))
            if o == "sext" or o == "trunc" and dst[1] >= 32:
                return v
            if o == "zext":
                return v if self.decide(st, "ge", v.f) else UN
            return UN
        if isinstance(v, Dt):
            t = v.t
            lo, hi = trange(t)
            if o == "trunc":
                if dst[1] >= 32:
                    return v
                if dst[1] == 16:
                    return Dt(u16(t))
                return v if lo >= 0 and hi < 1 << dst[1] else UN
            if o == "zext":
                return v if lo >= 0 else UN
            if src[1] == 16:
                return Dt(s16(t))
            return v if src[1] >= 32 or hi < 1 << (src[1] - 1) else UN
        return UN


def negate(c):
    if c is None:
        return None
    if c[0] in ("and", "or"):
        return ("or" if c[0] == "and" else "and", negate(c[1]), negate(c[2]))
    if c[0] == "k":
        return ("k", not c[1])
    if c[0] == "n":
        return ("n", {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}[c[1]], c[2])
    return ("t", c[1], not c[2])


def tcond(p, d):
    """the condition `d p 0` over a term"""
    if not d[1]:
        c = d[0]
        return ("k", {"eq": c == 0, "ne": c != 0, "lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[p])
    lo, hi = trange(d)
    if p in ("eq", "ne"):
        if lo > 0 or hi < 0:
            return ("k", p == "ne")
        if d[1][0][1] < 0:
            d = tscale(d, -1)
        return ("t", ("eq", d), p == "eq")
    pol = True
    if p in ("lt", "le"):                                       # d < 0 : not d >= 0 ; d <= 0 : not d-1 >= 0
        pol = False
        d = d if p == "lt" else tadd(d, T(-1))
    elif p == "gt":
        d = tadd(d, T(-1))
    lo, hi = trange(d)
    if lo >= 0 or hi < 0:
        return ("k", (lo >= 0) == pol)
    if d[1][0][1] < 0:                                          # -e + c >= 0 : not e - c - 1 >= 0
        d = tadd(tscale(d, -1), T(-1))
        pol = not pol
    return ("t", ("ge", d), pol)
