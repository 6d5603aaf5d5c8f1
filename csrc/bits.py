"""Abstract words for the board software: constants, words of bit provenance, and affine functions of loop
counters; an evaluator of LLVM IR over them.

Nothing is executed: a function is interpreted once over the abstract domain; counted loops with constant bounds
are unfolded, other counted loops are summarised by induction (the loop's values are affine in the iteration
number, checked on the back edge), and waiting loops are taken to a fixpoint."""
import math
import re

from llir import AnalysisError, demangle

MAXUNROLL = 600


class Stop(Exception):
    """the path ends the program (a failed assert_term)"""


class W:
    """an integer of known width: bits[i] is 0, 1, an origin (tuple) or None (unknown)"""
    __slots__ = ("bits",)

    def __init__(self, bits):
        self.bits = tuple(bits)

    def __len__(self):
        return len(self.bits)

    @property
    def const(self):
        v = 0
        for i, b in enumerate(self.bits):
            if b not in (0, 1):
                return None
            v |= b << i
        return v

    def __eq__(self, o):
        return isinstance(o, W) and self.bits == o.bits

    def __hash__(self):
        return hash(self.bits)

    def __repr__(self):
        c = self.const
        if c is not None:
            return hex(c)
        out, i = [], len(self.bits)
        while i > 0:
            j = i - 1
            b = self.bits[j]
            if b in (0, 1) or b is None or not isinstance(b[-1], int):
                out.append("?" if b is None else str(b))
                i = j
                continue
            while j > 0 and isinstance(self.bits[j - 1], tuple) and self.bits[j - 1][:-1] == b[:-1] and \
                    self.bits[j - 1][-1] == self.bits[j][-1] - 1:
                j -= 1
            out.append("%s[%d:%d]" % (":".join(map(str, b[:-1])), self.bits[j][-1], b[-1] + 1))
            i = j
        return "{" + " ".join(out) + "}"


def K(v, n):
    return W(((v >> i) & 1) for i in range(n))


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) & 1 else v


class Lin:
    """c0 + sum c_k * k over iteration numbers k (mathematical integers; the range is checked when k is bounded)"""
    __slots__ = ("c0", "cs", "n")

    def __init__(self, c0, cs, n):
        self.c0, self.cs, self.n = c0, tuple(sorted((k, c) for k, c in dict(cs).items() if c)), n

    def __eq__(self, o):
        return isinstance(o, Lin) and (self.c0, self.cs, self.n) == (o.c0, o.cs, o.n)

    def __hash__(self):
        return hash((self.c0, self.cs, self.n))

    def __repr__(self):
        return "(%s)" % " + ".join([str(self.c0)] + ["%d*%s" % (c, k) for k, c in self.cs])


class P:
    """pointer: object and byte offset (int or Lin)"""
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __eq__(self, o):
        return isinstance(o, P) and self.obj is o.obj and self.off == o.off

    def __hash__(self):
        return hash((id(self.obj), self.off))

    def __repr__(self):
        return "&%s+%s" % (self.obj.name if self.obj else "null", self.off)


NULL = P(None)


class Obj:
    """kinds: mem (cells offset -> (size, value)), data (constant bytes), mmio, vector, string"""

    def __init__(self, kind, name, size=None):
        self.kind, self.name, self.size = kind, name, size
        self.cells = {}
        self.val = None


class F:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, F) and self.v == o.v

    def __hash__(self):
        return hash(self.v)


class Agg:
    """a structure value: fields by index"""

    def __init__(self, val):
        self.val = list(val)


class Choice:
    """one of two values, by a condition"""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, Choice) and (self.c, self.a, self.b) == (o.c, o.a, o.b)

    def __hash__(self):
        return hash((self.c, self.a, self.b))


class U:
    """an undefined value"""

    def __init__(self, n=0):
        self.n = n

    def __repr__(self):
        return "undef"


def lin(v, signed=True):
    if isinstance(v, Lin):
        return v
    c = v.const
    return None if c is None else Lin(sgn(c, len(v)) if signed else c, (), len(v))


def mkw(l):
    return K(l.c0, l.n) if isinstance(l, Lin) and not l.cs else l


class Ev:
    def __init__(self, mods):
        """mods: parsed modules, searched in order for a function"""
        self.mods = mods
        self.dem = {}
        for m in mods:
            self.dem.update(demangle(list(m.funcs) + list(m.decl)))
        self.events = []            # (kind, place, value, where)
        self.reads = 0
        self.obligations = []       # Lin values that must not wrap
        self.ranges = {}            # iteration number -> count
        self.depth = 0
        self.mmio_read = None       # fn(obj, off, size, n) -> value
        self.facts = {}             # origin bit -> 0/1 learned on the path
        self.calls = 0
        self.externs = {}
        self.reached = set()
        self.unknown = 0
        self.long = set()           # loops too long to unfold
        self.faults = []            # library misuse found on the way
        self.waits = []             # ways out of waiting loops

    def fork(self):
        return dict(self.facts)

    # -- functions -------------------------------------------------------------------
    def find(self, pred):
        out = []
        for m in self.mods:
            for n, f in m.funcs.items():
                if pred(self.dem[n]):
                    out.append((m, f))
        return out

    def method(self, sig):
        """the function with this demangled name up to [abi] tags; sig without arguments matches any"""
        def norm(s):
            return re.sub(r"\[abi:\w+\]", "", s)
        r = self.find(lambda d: norm(d) == sig or norm(d).split("(")[0] == sig)
        if len(r) != 1:
            raise AnalysisError("%d functions called %s" % (len(r), sig))
        return r[0]

    def call(self, mf, args):
        m, f = mf
        self.depth += 1
        if self.depth > 40:
            raise AnalysisError("recursion in %s" % f.name)
        self.reached.add(f.name)
        try:
            return Frame(self, m, f, args).run()
        finally:
            self.depth -= 1


class Frame:
    def __init__(self, ev, m, f, args):
        self.ev, self.m, self.f = ev, m, f
        self.T = m.types
        self.regs = {p[1]: a for p, a in zip(f.params, args)}
        self.pending = None

    # ---- values
    def val(self, v, ty=None):
        k = v[0]
        if k == "reg":
            return self.regs[v[1]]
        if k == "int":
            t = self.T.resolve(v[2])
            return K(v[1] & ((1 << t[1]) - 1), t[1])
        if k == "null":
            return NULL
        if k == "addr":
            return P(Obj("addr", "address %d" % v[1][1]), 0)
        if k == "float":
            return F(v[1])
        if k == "undef":
            return U()
        if k == "zero":
            t = self.T.resolve(v[1])
            if t[0] == "i":
                return K(0, t[1])
            if t[0] == "ptr":
                return NULL
            return U()
        if k == "glob":
            return P(self.glob(v[1]))
        if k == "gep":
            return self.gep(v[1], [(None, a) for a in v[2]])
        raise AnalysisError("value %r" % (v,))

    def glob(self, name):
        g = self.m.globals.get(name)
        cache = self.m.__dict__.setdefault("objs", {})
        if name in cache:
            return cache[name]
        if g is None:
            if name in self.m.funcs or name in self.m.decl:
                o = Obj("fn", name)
            else:
                raise AnalysisError("global %s" % name)
        elif g[0] == "alias":
            return self.glob(g[1])
        elif g[0] == "data":
            o = Obj("data", name, len(g[2]))
            o.val = g[2]
        elif g[0] == "init" and g[3] == "constant":
            o = Obj("mem", name, self.T.size(g[1]))
            cache[name] = o
            self.init(o, 0, g[1], g[2])
        else:
            o = Obj("mem", name, self.T.size(g[1]) if g[0] == "init" else None)
        cache[name] = o
        return o

    def init(self, o, off, t, text):
        """constant initialiser text -> cells"""
        from llir import Parser
        p = Parser("")
        p.T = self.T
        pos = self._init(p, o, off, t, text, 0)
        return pos

    def _init(self, p, o, off, t, s, i):
        while s[i] == " ":
            i += 1
        rt = self.T.resolve(t)
        if rt[0] in ("arr", "struct"):
            if s.startswith("zeroinitializer", i) or s.startswith("undef", i):
                def z(off, t):
                    t = self.T.resolve(t)
                    if t[0] == "arr":
                        for k in range(t[1]):
                            z(off + k * self.T.size(t[2]), t[2])
                    elif t[0] == "struct":
                        for k in range(len(t[1])):
                            fo, ft = self.T.field(t, k)
                            z(off + fo, ft)
                    else:
                        o.cells[off] = (self.T.size(t), NULL if t[0] == "ptr" else K(0, self.T.size(t) * 8))
                z(off, t)
                return s.index(" ", i) if " " in s[i:] else len(s)
            m = re.compile(r'c"((?:[^"])*)"').match(s, i)
            if m:
                raw = re.sub(r"\\([0-9A-F]{2})", lambda x: chr(int(x.group(1), 16)), m.group(1))
                for k, c in enumerate(raw):
                    o.cells[off + k] = (1, K(ord(c), 8))
                return m.end()
            close = {"[": "]", "{": "}", "<": ">"}[s[i]]
            i += 1
            if s[i] == "{":
                i += 1
                close = "}"
            k = 0
            while True:
                while s[i] in " ,":
                    i += 1
                if s[i] == close:
                    return i + 1
                et, i = self.T.parse(s, i)
                fo, _ = self.T.field(t, k)
                i = self._init(p, o, off + fo, et, s, i)
                k += 1
        v, i = p.value(s, i, t)
        n = self.T.size(t)
        x = self.val(v)
        o.cells[off] = (n, x)
        return i

    # ---- arithmetic on offsets
    def addoff(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        ca, sa = (a, ()) if isinstance(a, int) else (a.c0, a.cs)
        cb, sb = (b, ()) if isinstance(b, int) else (b.c0, b.cs)
        d = dict(sa)
        for k, c in sb:
            d[k] = d.get(k, 0) + c
        r = Lin(ca + cb, d, 64)
        return r if r.cs else r.c0

    def scale(self, v, n):
        if isinstance(v, Lin):
            r = Lin(v.c0 * n, {k: c * n for k, c in v.cs}, 64)
            return r if r.cs else r.c0
        c = v.const
        if c is None:
            self.ev.unknown += 1
            return Lin(0, {"?%d" % self.ev.unknown: n}, 64)       # somewhere in the object
        return sgn(c, len(v)) * n

    def gep(self, ty, args):
        p = self.val(args[0][1])
        if not isinstance(p, P):
            raise AnalysisError("gep on %r" % (p,))
        off = self.addoff(p.off, self.scale(self.val(args[1][1]), self.T.size(ty)))
        t = ty
        for _, a in args[2:]:
            v = self.val(a)
            rt = self.T.resolve(t)
            if rt[0] == "struct":
                fo, t = self.T.field(rt, v.const)
                off = self.addoff(off, fo)
            else:
                t = rt[2]
                off = self.addoff(off, self.scale(v, self.T.size(t)))
        return P(p.obj, off)

    def load(self, p, ty, I):
        t = self.T.resolve(ty)
        n = self.T.size(t)
        if not isinstance(p, P) or p.obj is None:
            raise AnalysisError("load through %r at %s" % (p, self.m.where(I)))
        o = p.obj
        if o.kind == "mmio":
            v = self.ev.mmio_read(self.ev, o, p.off, n, self.m.where(I))
            return v
        if isinstance(p.off, Lin):
            raise AnalysisError("load at a variable offset of %s (%s)" % (o.name, self.m.where(I)))
        if o.kind == "vecdata":
            from stl import get
            return get(self, p)
        if o.kind == "data":
            if p.off < 0 or p.off + n > len(o.val):
                raise AnalysisError("constant %s read outside its bounds at %s" % (o.name, self.m.where(I)))
            v = 0
            for k in range(n):
                v |= o.val[p.off + k] << (8 * k)
            return K(v, t[1])
        c = o.cells.get(p.off)
        if c is not None and c[0] == n:
            v = c[1]
            if t[0] == "i" and isinstance(v, W) and len(v) != t[1]:
                v = W((v.bits + (0,) * t[1])[:t[1]])
            return v
        if c is None and not any(a < p.off + n and p.off < a + s for a, (s, _) in o.cells.items()):
            return U(n)
        bits = []
        for b in range(n):
            for a, (s, v) in o.cells.items():
                if a <= p.off + b < a + s and isinstance(v, W):
                    bits += v.bits[8 * (p.off + b - a):8 * (p.off + b - a) + 8]
                    break
            else:
                raise AnalysisError("partial load of %s at %s" % (o.name, self.m.where(I)))
        return W(bits[:t[1]])

    def store(self, p, v, ty, I):
        n = self.T.size(ty)
        if not isinstance(p, P) or p.obj is None:
            raise AnalysisError("store through %r at %s" % (p, self.m.where(I)))
        o = p.obj
        if o.kind == "mmio":
            self.ev.events.append(("write", o, p.off, n, v, self.m.where(I)))
            return
        if o.kind == "vecdata":
            from stl import V, get, put
            get(self, p)
            x = get(self, o.val)
            i = p.off // x.esz
            put(o.val, V(x.esz, x.val[:i] + (v,) + x.val[i + 1:]))
            return
        if isinstance(p.off, Lin):
            raise AnalysisError("store at a variable offset of %s (%s)" % (o.name, self.m.where(I)))
        for a, (s, w) in list(o.cells.items()):
            if a < p.off + n and p.off < a + s:
                if (a, s) == (p.off, n):
                    continue
                del o.cells[a]
                if isinstance(w, W):
                    for b in range(s):
                        if not p.off <= a + b < p.off + n:
                            o.cells[a + b] = (1, W(w.bits[8 * b:8 * b + 8]))
        if isinstance(v, W) and len(v) < 8 * n:
            v = W(v.bits + (0,) * (8 * n - len(v)))
        o.cells[p.off] = (n, v)

    # ---- operators
    def binop(self, op, a, b, n, x, I):
        ca = a.const if isinstance(a, W) else None
        cb = b.const if isinstance(b, W) else None
        M = (1 << n) - 1
        if ca is not None and cb is not None:
            sa, sb = sgn(ca, n), sgn(cb, n)
            if op in ("udiv", "urem", "sdiv", "srem") and cb == 0:
                raise AnalysisError("division by zero at %s" % self.m.where(I))
            if op == "sdiv":
                r = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
            elif op == "srem":
                r = abs(sa) % abs(sb) * (1 if sa >= 0 else -1)
            elif op in ("shl", "lshr", "ashr") and cb >= n:
                return W((None,) * n)
            else:
                r = {"add": lambda: ca + cb, "sub": lambda: ca - cb, "mul": lambda: ca * cb,
                     "and": lambda: ca & cb, "or": lambda: ca | cb, "xor": lambda: ca ^ cb,
                     "shl": lambda: ca << cb, "lshr": lambda: ca >> cb, "ashr": lambda: sa >> cb,
                     "udiv": lambda: ca // cb, "urem": lambda: ca % cb}[op]()
            return K(r & M, n)
        if isinstance(a, Lin) or isinstance(b, Lin):
            la, lb = (lin(v) if not isinstance(v, U) else None for v in (a, b))
            if la is not None and lb is not None:
                r = None
                if op in ("add", "sub"):
                    s = 1 if op == "add" else -1
                    d = dict(la.cs)
                    for k, c in lb.cs:
                        d[k] = d.get(k, 0) + s * c
                    r = Lin(la.c0 + s * lb.c0, d, n)
                elif op == "mul" and (not la.cs or not lb.cs):
                    q, y = (la.c0, lb) if not la.cs else (lb.c0, la)
                    r = Lin(y.c0 * q, {k: c * q for k, c in y.cs}, n)
                elif op == "shl" and not lb.cs:
                    r = Lin(la.c0 << lb.c0, {k: c << lb.c0 for k, c in la.cs}, n)
                elif op in ("sdiv", "udiv", "ashr", "lshr") and not lb.cs:
                    q = lb.c0 if op in ("sdiv", "udiv") else 1 << lb.c0
                    # exact on the multiples, floor of the constant when everything is non-negative
                    if q > 0 and la.c0 >= 0 and all(c % q == 0 and c >= 0 for _, c in la.cs):
                        r = Lin(la.c0 // q, {k: c // q for k, c in la.cs}, n)
                elif op in ("and", "urem", "srem"):
                    q = lb.c0 + 1 if op == "and" else lb.c0
                    if not lb.cs and q > 0 and q & (q - 1) == 0 or op != "and":
                        if q > 0 and la.c0 >= 0 and all(c % q == 0 and c >= 0 for _, c in la.cs):
                            r = Lin(la.c0 % q, {}, n)
                elif op == "or":
                    # disjoint low bits: a multiple of 2^j plus a smaller constant
                    for y, z in ((la, lb), (lb, la)):
                        if not z.cs and z.c0 >= 0:
                            j = 1 << z.c0.bit_length()
                            if y.c0 % j == 0 and all(c % j == 0 for _, c in y.cs):
                                r = Lin(y.c0 + z.c0, dict(y.cs), n)
                if r is not None:
                    self.ev.obligations.append((r, self.m.where(I)))
                    return mkw(r)
            return W((None,) * n)
        if isinstance(a, U) or isinstance(b, U):
            return W((None,) * n)
        A, B = a.bits, b.bits
        if op in ("shl", "lshr", "ashr"):
            if cb is None or cb >= n:
                return W((None,) * n)
            if op == "shl":
                return W((0,) * cb + A[:n - cb])
            return W(A[cb:] + ((0,) if op == "lshr" else (A[-1],)) * cb)
        if op == "and":
            return W(0 if 0 in (x_, y) else x_ if y == 1 or x_ == y else y if x_ == 1 else None for x_, y in zip(A, B))
        if op == "or" or (op in ("add", "xor") and all(x_ == 0 or y == 0 for x_, y in zip(A, B))):
            return W(1 if 1 in (x_, y) and op == "or" else x_ if y == 0 or (x_ == y and op == "or") else
                     y if x_ == 0 else None for x_, y in zip(A, B))
        if op == "xor":
            return W(x_ if y == 0 else y if x_ == 0 else ("~",) + x_ if y == 1 and x_ is not None and x_ != 1 and
                     x_[0] != "~" else x_[1:] if y == 1 and x_ not in (None, 0, 1) else
                     int(x_ != y) if x_ in (0, 1) and y in (0, 1) else None for x_, y in zip(A, B))
        if op == "mul" and (ca is not None or cb is not None):
            q, z = (ca, B) if ca is not None else (cb, A)
            if q and q & (q - 1) == 0:
                s = q.bit_length() - 1
                return W(((0,) * s + z)[:n])
        if op in ("udiv", "urem") and cb and cb & (cb - 1) == 0:
            s = cb.bit_length() - 1
            return W((A[s:] + (0,) * s) if op == "udiv" else A[:s] + (0,) * (n - s))
        if op == "sub" and cb is not None and cb == 0:
            return a
        # addition of a constant whose low zeros keep the low bits
        low = 0
        if op in ("add", "sub"):
            while low < n and B[low] == 0:
                low += 1
            return W(A[:low] + (None,) * (n - low))
        return W((None,) * n)

    def icmp(self, pred, a, b, n):
        """True, False, or a condition ("bit", origin, polarity) / ("lin", ...) / None"""
        if isinstance(a, P) and isinstance(b, P):
            if a.obj is b.obj and isinstance(a.off, int) and isinstance(b.off, int):
                x, y = a.off, b.off
                return {"eq": x == y, "ne": x != y, "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[pred]
            if a.obj is b.obj:
                fa = a.off if isinstance(a.off, Lin) else Lin(a.off, {}, 64)
                fb = b.off if isinstance(b.off, Lin) else Lin(b.off, {}, 64)
                return self.lincmp(pred, fa, fb)
            if a.obj is None or b.obj is None:
                return {"eq": False, "ne": True}.get(pred)
            return None
        if isinstance(a, (U, F)) or isinstance(b, (U, F)) or isinstance(a, P) or isinstance(b, P):
            return None
        if isinstance(a, Lin) or isinstance(b, Lin):
            la, lb = lin(a, pred[0] != "u"), lin(b, pred[0] != "u")
            if la is None or lb is None:
                return None
            return self.lincmp(pred, la, lb)
        ca, cb = a.const, b.const
        if ca is not None and cb is not None:
            x, y = (sgn(ca, n), sgn(cb, n)) if pred[0] == "s" else (ca, cb)
            return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[
                pred if pred in ("eq", "ne") else pred[1:]]
        if pred in ("eq", "ne"):
            if any(x in (0, 1) and y in (0, 1) and x != y for x, y in zip(a.bits, b.bits)):
                return pred == "ne"
            d = [(x, y) for x, y in zip(a.bits, b.bits) if x != y or x is None]
            if not d:
                return pred == "eq"
            if all(isinstance(x, tuple) and y in (0, 1) or isinstance(y, tuple) and x in (0, 1) for x, y in d):
                # equality is the conjunction of these bits having these values
                lits = []
                for x, y in d:
                    x, y = (x, y) if isinstance(x, tuple) else (y, x)
                    if x[0] == "~":
                        x, y = x[1:], 1 - y
                    lits.append((x, y))
                return ("all", tuple(sorted(set(lits), key=str)), pred == "eq")
        if pred in ("ugt", "ult") and (ca == 0 or cb == 0):
            z = b if (pred, cb) == ("ugt", 0) else a if (pred, ca) == ("ult", 0) else None
            if z is not None:
                return self.icmp("ne", a, b, n)
        return None

    def lincmp(self, pred, la, lb):
        d = dict(la.cs)
        for k, c in lb.cs:
            d[k] = d.get(k, 0) - c
        l = Lin(la.c0 - lb.c0, d, 64)
        if not l.cs:
            return {"eq": l.c0 == 0, "ne": l.c0 != 0, "lt": l.c0 < 0, "le": l.c0 <= 0, "gt": l.c0 > 0,
                    "ge": l.c0 >= 0}[pred if pred in ("eq", "ne") else pred[1:]]
        # bounded iteration numbers may settle it
        lo, hi = self.span(l)
        p = pred if pred in ("eq", "ne") else pred[1:]
        if lo is not None and hi is not None:
            if p == "lt" and (hi < 0 or lo >= 0):
                return hi < 0
            if p == "le" and (hi <= 0 or lo > 0):
                return hi <= 0
            if p == "gt" and (lo > 0 or hi <= 0):
                return lo > 0
            if p == "ge" and (lo >= 0 or hi < 0):
                return lo >= 0
            if p in ("eq", "ne") and (lo > 0 or hi < 0):
                return p == "ne"
        return ("lin", p, l)

    def span(self, l):
        lo = hi = l.c0
        for k, c in l.cs:
            n = self.ev.ranges.get(k)
            if n is None:
                return None, None
            e = c * (n - 1)
            lo, hi = lo + min(0, e), hi + max(0, e)
        return lo, hi

    # ---- control flow
    def run(self):
        self.order = self.f.order
        self.heads = self.find_loops()
        st = self.exec(self.order[0], None, None)
        return st

    def find_loops(self):
        """natural loops: header -> set of blocks"""
        succ = {}
        for b in self.order:
            t = self.f.blocks[b][-1]
            succ[b] = t.args if t.op == "br" else [t.args[0]] + [x for _, x in t.args[1]] if t.op == "switch" else []
        self.succ = succ
        pred = {b: [] for b in self.order}
        for b, ss in succ.items():
            for s in ss:
                pred[s].append(b)
        dom = {b: set(self.order) for b in self.order}
        dom[self.order[0]] = {self.order[0]}
        ch = True
        while ch:
            ch = False
            for b in self.order[1:]:
                ps = [dom[p] for p in pred[b]]
                d = ({b} | set.intersection(*ps)) if ps else {b}
                if d != dom[b]:
                    dom[b], ch = d, True
        loops = {}
        for b in self.order:
            for s in succ[b]:
                if s in dom[b]:
                    body, todo = {s, b}, [b]
                    while todo:
                        x = todo.pop()
                        if x == s:
                            continue
                        for p in pred[x]:
                            if p not in body:
                                body.add(p)
                                todo.append(p)
                    loops.setdefault(s, set()).update(body)
        # post-dominators for joins
        ends = [b for b in self.order if not succ[b]]
        pd = {b: set(self.order) for b in self.order}
        for e in ends:
            pd[e] = {e}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                if b in ends:
                    continue
                ss = [pd[s] for s in succ[b]]
                d = {b} | (set.intersection(*ss) if ss else set())
                if d != pd[b]:
                    pd[b], ch = d, True
        self.pdom = pd
        return loops

    def ipdom(self, b):
        c = self.pdom[b] - {b}
        for x in c:
            if self.pdom[x] == c:
                return x
        return None

    def phis(self, b, prev):
        new = {}
        if self.pending == b:
            self.pending = None                 # joined: the phis are known
            return new
        for I in self.f.blocks[b]:
            if I.op != "phi":
                break
            for v, p in I.args:
                if p == prev:
                    new[I.res] = self.val(v)
                    break
            else:
                raise AnalysisError("phi without an entry from %s" % prev)
        self.regs.update(new)
        return new

    def exec(self, b, prev, until):
        """run from block b (entered from prev) until block `until` is reached; returns ("ret", value) or
        ("at", prev)"""
        steps = 0
        while True:
            if b == until:
                return ("at", prev)
            steps += 1
            if steps > 40 * MAXUNROLL:
                raise AnalysisError("no end of %s within the unfolding bound" % self.f.name)
            if b in self.heads and prev is not None and prev not in self.heads[b]:
                r = self.loop(b, prev, until)
                if r[0] == "ret":
                    return r
                _, b, prev = r
                continue
            self.phis(b, prev)
            r = self.block(b)
            if r[0] == "ret":
                return r
            if r[0] == "go":
                prev, b = b, r[1]
                continue
            # undecided branch
            prev, b, ret = self.split(b, r[1], r[2], r[3], until)
            if ret is not None:
                return ret

    def block(self, b):
        for I in self.f.blocks[b]:
            if I.op == "phi":
                continue
            r = self.inst(I)
            if r is not None:
                return r
        raise AnalysisError("block %s does not end" % b)

    # ---- loops
    def loop(self, h, prev, until):
        """the header h of a loop entered from prev: ("go", next block, its predecessor) after the loop"""
        body = self.heads[h]
        # 1. unfold while the exit tests are constants
        save = self.snapshot()
        long = self.ev.long
        try:
            if (self.f.name, h) not in long:
                return self.unfold(h, prev, body, MAXUNROLL)
        except TooLong:
            long.add((self.f.name, h))
        except Undecided as e:
            self.restore(save)
            return self.wait(h, prev, body)
        self.restore(save)
        return self.induct(h, prev, body)

    def unfold(self, h, prev, body, bound):
        b, n = h, 0
        while b in body:
            if b == h:
                n += 1
                if n > bound or n > 24 and any((self.f.name, x) in self.ev.long for x in body):
                    raise TooLong()
            if b in self.heads and b != h and prev not in self.heads[b]:
                r = self.loop(b, prev, None)
                if r[0] == "ret":
                    return r
                _, b, prev = r
                continue
            self.phis(b, prev)
            r = self.block(b)
            if r[0] == "ret":
                return r
            if r[0] == "go":
                prev, b = b, r[1]
                continue
            t, e = r[2], r[3]
            j = self.ipdom(b)
            if j is None or j not in body or j == h or t not in body or e not in body:
                raise Undecided(b)
            prev, b, ret = self.split(b, r[1], t, e, None)
            if ret is not None:
                return ret
        return ("go", b, prev)

    def snapshot(self):
        ev = self.ev
        return dict(self.regs), len(ev.events), len(ev.obligations), dict(ev.facts), ev.reads, self.heap()

    def heap(self):
        """contents of the objects reachable from registers"""
        seen, todo = {}, [v for v in self.regs.values()] + list(getattr(self.ev, "roots", []))
        while todo:
            v = todo.pop()
            if isinstance(v, P) and v.obj is not None and id(v.obj) not in seen and v.obj.kind in ("mem", "vecdata"):
                o = v.obj
                val = o.val
                seen[id(o)] = (o, dict(o.cells), list(val) if isinstance(val, list) else val)
                todo += [c[1] for c in o.cells.values()]
                todo.append(val)
        return seen

    def restore(self, s):
        ev = self.ev
        self.regs = dict(s[0])
        del ev.events[s[1]:]
        del ev.obligations[s[2]:]
        ev.facts = dict(s[3])
        ev.reads = s[4]
        for o, c, v in s[5].values():
            o.cells, o.val = dict(c), list(v) if isinstance(v, list) else v

    def induct(self, h, prev, body):
        """a counted loop too long to unfold: values affine in the iteration number"""
        ev = self.ev
        save = self.snapshot()
        first = self.phis(h, prev)
        names = [I.res for I in self.f.blocks[h] if I.op == "phi"]
        v0 = {n: first[n] for n in names}
        # iteration 0 gives the strides
        latch = self.iterate(h, prev, body, None)
        v1 = {}
        for I in self.f.blocks[h]:
            if I.op == "phi":
                v1[I.res] = self.val(dict((p, v) for v, p in I.args)[latch])
        self.restore(save)
        k = "k%d" % len(ev.ranges)
        while k in ev.ranges:
            k += "'"
        ev.ranges[k] = None
        sym = {}
        for n in names:
            sym[n] = self.stride(v0[n], v1[n], k)
        exits = []
        self.regs.update(sym)
        e0 = len(ev.events)
        latch = self.iterate(h, prev, body, exits, skip=True)
        for I in self.f.blocks[h]:
            if I.op != "phi":
                break
            nx = self.val(dict((p, v) for v, p in I.args)[latch])
            want = self.shift(sym[I.res], k)
            if nx != want:
                raise AnalysisError("%s is not affine in the iterations of the loop at %s: %r, expected %r"
                                    % (I.res, self.m.where(self.f.blocks[h][-1]), nx, want))
        if len(exits) != 1:
            raise AnalysisError("loop with %d exits at %s" % (len(exits), self.m.where(self.f.blocks[h][-1])))
        p, l, stay = exits[0]
        # stay while (l p 0) == stay ; l = a + c*k (+ other, bounded, iteration numbers)
        n = self.count(p, l, stay, k)
        ev.ranges[k] = n
        # the exit: k = n
        evs = ev.events[e0:]
        sv = dict(self.regs)
        for nm in names:
            self.regs[nm] = self.subst(sym[nm], k, n)
        b, pb, j = h, prev, len(ev.events)
        firsttime = True
        while b in body:
            if not firsttime:
                self.phis(b, pb)
            firsttime = False
            r = self.block(b)
            if r[0] != "go":
                raise AnalysisError("exit path of the loop at %s" % self.m.where(self.f.blocks[h][-1]))
            pb, b = b, r[1]
            if b == h:
                raise AnalysisError("the loop count at %s" % self.m.where(self.f.blocks[h][-1]))
        return ("go", b, pb)

    def iterate(self, h, prev, body, exits, skip=False):
        """one iteration; returns the latch block"""
        b, p, start = h, prev, True
        while True:
            if not start and b == h:
                return p
            if b not in body:
                raise AnalysisError("the loop at %s leaves in its first iteration" % self.m.where(self.f.blocks[h][-1]))
            if b in self.heads and b != h and p not in self.heads[b]:
                r = self.loop(b, p, None)
                if r[0] == "ret":
                    raise AnalysisError("return inside a loop")
                _, b, p = r
                continue
            if not start or not skip:
                self.phis(b, p)
            start = False
            r = self.block(b)
            if r[0] == "ret":
                raise AnalysisError("return inside a loop")
            if r[0] == "go":
                p, b = b, r[1]
                continue
            c, t, e = r[1:]
            if (t in body) != (e in body):
                if not (isinstance(c, tuple) and c[0] == "lin"):
                    raise AnalysisError("exit condition of the loop at %s" % self.m.where(self.f.blocks[b][-1]))
                if exits is None:
                    raise AnalysisError("undecided exit")
                exits.append((c[1], c[2], t in body))
                p, b = b, (t if t in body else e)
                continue
            p, b, ret = self.split(b, c, t, e, None)
            if ret is not None:
                raise AnalysisError("return inside a loop")

    def count(self, p, l, stay, k):
        c = dict(l.cs).get(k)
        if c is None or len(l.cs) > 1:
            raise AnalysisError("loop count depends on %r" % l)
        neg = {"lt": "ge", "ge": "lt", "le": "gt", "gt": "le", "eq": "ne", "ne": "eq"}
        if not stay:
            p = neg[p]
        a = l.c0                                # stay while a + c*k p 0, k = 0, 1, ..
        if p in ("gt", "ge"):
            a, c, p = -a, -c, {"gt": "lt", "ge": "le"}[p]
        if p == "le":
            a, p = a - 1, "lt"
        if p == "lt":
            if a >= 0:
                return 0
            if c <= 0:
                raise AnalysisError("a loop that does not end")
            return -(a // c) if (-a) % c == 0 else (-a) // c + 1
        if p == "ne":
            if c and (-a) % c == 0 and (-a) // c >= 0:
                return (-a) // c
            raise AnalysisError("a loop that steps over its end")
        raise AnalysisError("exit test %s" % p)

    def stride(self, a, b, k):
        if a == b:
            return a
        if isinstance(a, P) and isinstance(b, P) and a.obj is b.obj:
            x = a.off if isinstance(a.off, Lin) else Lin(a.off, {}, 64)
            y = b.off if isinstance(b.off, Lin) else Lin(b.off, {}, 64)
            r = self.stride(x, y, k)
            return P(a.obj, r)
        if isinstance(a, (W, Lin)) and isinstance(b, (W, Lin)):
            x, y = lin(a), lin(b)
            if x is not None and y is not None and x.cs == y.cs:
                d = dict(x.cs)
                d[k] = y.c0 - x.c0
                return Lin(x.c0, d, x.n)
            return W((None,) * (len(a) if isinstance(a, W) else a.n))
        raise AnalysisError("loop value from %r to %r" % (a, b))

    def shift(self, v, k):
        if isinstance(v, P) and isinstance(v.off, Lin):
            return P(v.obj, self.shift(v.off, k))
        if isinstance(v, Lin):
            return Lin(v.c0 + dict(v.cs).get(k, 0), dict(v.cs), v.n)
        return v

    def subst(self, v, k, n):
        if isinstance(v, P) and isinstance(v.off, Lin):
            r = self.subst(v.off, k, n)
            return P(v.obj, r if isinstance(r, Lin) else sgn(r.const, len(r)))
        if isinstance(v, Lin):
            d = dict(v.cs)
            c = d.pop(k, 0)
            return mkw(Lin(v.c0 + c * n, d, v.n))
        return v

    def wait(self, h, prev, body):
        """a loop whose end depends on values read: fixpoint over the loop's states; leaves through its exits.
        Every path of one iteration is followed from the first entry and from the state after an iteration with
        unknown values read before; all exits must agree on the exit block (their facts are intersected)."""
        ev = self.ev
        outs = []
        states = [(prev, self.snapshot())]
        seen = set()
        while states:
            p, s = states.pop()
            self.restore(s)
            todo = [(h, p, True)]
            stack = [(h, p, self.snapshot())]
            while stack:
                b, p, s2 = stack.pop()
                self.restore(s2)
                first = b == h and p in (prev,)
                while True:
                    if b not in body:
                        outs.append((b, p, self.snapshot(), list(ev.events), dict(ev.facts)))
                        break
                    if b == h and p in body:
                        # back edge
                        self.phis(b, p)
                        names = [I.res for I in self.f.blocks[h] if I.op == "phi"]
                        key = tuple(self.canon(self.regs[n], ev.facts) for n in names)
                        if key in seen:
                            break
                        seen.add(key)
                        if len(seen) > 64:
                            raise AnalysisError("no fixpoint of the waiting loop at %s"
                                                % self.m.where(self.f.blocks[h][-1]))
                    else:
                        self.phis(b, p)
                    r = self.block(b)
                    if r[0] == "ret":
                        raise AnalysisError("return inside a waiting loop")
                    if r[0] == "go":
                        p, b = b, r[1]
                        continue
                    c, t, e = r[1:]
                    s3 = self.snapshot()
                    evs = list(ev.events)
                    for tgt, pol in ((t, True), (e, False)):
                        self.restore(s3)
                        for alt in self.assume(c, pol):
                            ev.facts = dict(alt)
                            stack.append((tgt, b, self.snapshot()))
                    break
        if not outs:
            raise Stop()
        tgt = {(o[0]) for o in outs}
        if len(tgt) != 1:
            raise AnalysisError("a waiting loop with several ways out at %s" % self.m.where(self.f.blocks[h][-1]))
        ev.waits.append((self.m.where(self.f.blocks[h][-1]), [(o[3], o[4]) for o in outs]))
        common = None
        for o in outs:
            f = set(o[4].items())
            common = f if common is None else common & f
        b, p, s, evs, _ = outs[-1]
        self.restore(s)
        ev.facts = dict(common)
        return ("go", b, p)

    def canon(self, v, facts):
        if isinstance(v, W):
            return tuple((b, None) if b in (0, 1) or b is None else ("x", b[-1], facts.get(b)) for b in v.bits)
        return v

    def assume(self, c, pol):
        """fact sets under which the condition is pol"""
        ev = self.ev
        if c is True or c is False:
            return [dict(ev.facts)] if c == pol else []
        if isinstance(c, tuple) and c[0] == "ite":
            out, save = [], ev.facts
            for side, x in ((True, c[2]), (False, c[3])):
                ev.facts = save
                for f in self.assume(c[1], side):
                    ev.facts = f
                    out += self.assume(x, pol)
            ev.facts = save
            return out
        if isinstance(c, tuple) and c[0] == "all":
            want = c[2] == pol                  # all literals hold?
            if want:
                f = dict(ev.facts)
                for b, v in c[1]:
                    if f.get(b, v) != v:
                        return []
                    f[b] = v
                return [f]
            out = []
            for b, v in c[1]:
                f = dict(ev.facts)
                if f.get(b, 1 - v) != 1 - v:
                    continue
                f[b] = 1 - v
                out.append(f)
            return out
        return [dict(ev.facts)]

    # ---- branches on data: both arms up to the join, then merged
    def split(self, b, c, t, e, until):
        ev = self.ev
        j = self.ipdom(b)
        if j is None:
            raise AnalysisError("branch without a join at %s" % self.m.where(self.f.blocks[b][-1]))
        s = self.snapshot()
        arms = []
        for tgt, pol in ((t, True), (e, False)):
            self.restore(s)
            n0 = len(ev.events)
            try:
                r = self.exec(tgt, b, j)
            except Stop:
                continue
            if r[0] == "ret":
                raise AnalysisError("return on one side of a branch")
            arms.append((pol, r[1], dict(self.regs), ev.events[n0:], self.heap(), self.snapshot()))
        if not arms:
            raise Stop()
        if len(arms) == 1:
            self.restore(arms[0][5])
            ev.events += arms[0][3]
            return arms[0][1], j, None
        (p1, b1, r1, e1, h1, s1), (p0, b0, r0, e0, h0, s0) = arms
        if len(e1) != len(e0) or any(x[:4] != y[:4] for x, y in zip(e1, e0)):
            raise AnalysisError("different register accesses on the two sides of a branch at %s"
                                % self.m.where(self.f.blocks[b][-1]))
        if any(x[4] != y[4] for x, y in zip(e1, e0)):
            raise AnalysisError("different values written on the two sides of a branch")
        # memory
        self.restore(s0)
        ev.events += e0
        for i in set(h1) | set(h0):
            if i not in h1 or i not in h0:
                continue
            o, c1, v1 = h1[i]
            _, c0, v0 = h0[i]
            cells = {}
            for a in set(c1) | set(c0):
                if a in c1 and a in c0 and c1[a][0] == c0[a][0]:
                    cells[a] = (c1[a][0], self.merge(c, c1[a][1], c0[a][1]))
                else:
                    sz = (c1.get(a) or c0.get(a))[0]
                    cells[a] = (sz, U(sz))
            o.cells = cells
            if v1 != v0:
                raise AnalysisError("constant data changed on one side of a branch")
        # the phis at the join
        new = {}
        for I in self.f.blocks[j]:
            if I.op != "phi":
                break
            d = dict((p, v) for v, p in I.args)
            self.regs = r1
            x = self.val(d[b1])
            self.regs = r0
            y = self.val(d[b0])
            new[I.res] = self.merge(c, x, y)
        self.regs = {k: r1[k] for k in r1 if k in r0 and r1[k] == r0[k]}
        self.joined = new
        self.regs.update(new)
        self.pending = j
        return b1, j, None

    def merge(self, c, x, y):
        if x == y:
            return x
        if isinstance(x, tuple) or isinstance(y, tuple):
            return ("ite", c, self.cond(x), self.cond(y)) if c is not None else None
        from stl import S, V
        if c is not None and not isinstance(c, bool) and isinstance(x, (P, S, Choice)) and \
                isinstance(y, (P, S, Choice)):
            return Choice(c, x, y)
        if isinstance(x, V) and isinstance(y, V):
            return V(x.esz, self.mergeval(c, list(x.val), list(y.val)))
        if isinstance(x, W) and isinstance(y, W) and len(x) == len(y):
            if len(x) == 1 and x.const == 1 and isinstance(c, tuple) and c[0] == "all" and y.const == 0 and \
                    len(c[1]) == 1:
                lit, v = c[1][0]
                return W([lit if v == int(c[2]) else ("~",) + lit])
            return W(a if a == b else None for a, b in zip(x.bits, y.bits))
        if isinstance(x, (W, Lin, U)) and isinstance(y, (W, Lin, U)):
            return U()
        return U()

    def mergeval(self, c, x, y):
        """containers that differ: common prefix, then entries guarded by the condition"""
        if isinstance(c, tuple) and c[0] == "all" and len(c[1]) == 1:
            k = 0
            while k < min(len(x), len(y)) and x[k] == y[k]:
                k += 1
            lit, v = c[1][0]
            v = v if c[2] else 1 - v
            return x[:k] + [("if", lit, v, z) for z in x[k:]] + [("if", lit, 1 - v, z) for z in y[k:]]
        raise AnalysisError("containers differ after a branch in %s" % self.f.name)

    # ---- instructions
    def inst(self, I):
        op, R = I.op, self.regs
        if op == "br":
            if len(I.args) == 1:
                return ("go", I.args[0])
            c = self.cond(self.val(I.x))
            if c is True or c is False:
                return ("go", I.args[0] if c else I.args[1])
            return ("split", c, I.args[0], I.args[1])
        if op == "switch":
            v = self.val(I.x)
            if isinstance(v, W) and v.const is not None:
                for k, b in I.args[1]:
                    if k & ((1 << len(v)) - 1) == v.const:
                        return ("go", b)
                return ("go", I.args[0])
            raise AnalysisError("switch on data at %s" % self.m.where(I))
        if op == "ret":
            return ("ret", self.val(I.args[0]) if I.args else None)
        if op == "unreachable":
            raise Stop()
        if op == "alloca":
            R[I.res] = P(Obj("mem", I.res, self.T.size(I.ty)))
        elif op == "load":
            R[I.res] = self.load(self.val(I.args[0]), I.ty, I)
        elif op == "store":
            self.store(self.val(I.args[1]), self.val(I.args[0]), I.ty, I)
        elif op == "getelementptr":
            R[I.res] = self.gep(I.ty, I.args)
        elif op in ("zext", "sext", "trunc"):
            v = self.val(I.args[0])
            n = self.T.resolve(I.ty)[1]
            if isinstance(v, Lin):
                if op == "trunc" or op == "zext":
                    self.ev.obligations.append((Lin(v.c0, dict(v.cs), n if op == "trunc" else -v.n), self.m.where(I)))
                R[I.res] = Lin(v.c0, dict(v.cs), n)
            elif isinstance(v, U):
                R[I.res] = W((None,) * n)
            elif isinstance(v, tuple):
                R[I.res] = v
            else:
                R[I.res] = W(v.bits[:n] if op == "trunc" else
                             v.bits + ((0,) if op == "zext" else (v.bits[-1],)) * (n - len(v)))
        elif op in ("bitcast", "freeze"):
            R[I.res] = self.val(I.args[0])
        elif op == "icmp":
            a, b = self.val(I.args[0]), self.val(I.args[1])
            if isinstance(a, tuple) and isinstance(b, W) and b.const == 0 and I.x in ("eq", "ne"):
                R[I.res] = a if I.x == "ne" else self.neg(a)
            else:
                n = self.T.resolve(I.ty)[1] if self.T.resolve(I.ty)[0] == "i" else 64
                r = self.icmp(I.x, a, b, n)
                R[I.res] = K(int(r), 1) if r is True or r is False else r if r is not None else W((None,))
        elif op == "select":
            c = self.cond(self.val(I.args[0]))
            a, b = self.val(I.args[1]), self.val(I.args[2])
            if c is True or c is False:
                R[I.res] = a if c else b
            elif isinstance(c, tuple) and isinstance(a, W) and a.const == 0 and isinstance(b, tuple):
                R[I.res] = U()
            else:
                R[I.res] = self.merge(c, a, b)
        elif op in ("uitofp", "sitofp"):
            v = self.val(I.args[0])
            c = v.const if isinstance(v, W) else None
            R[I.res] = F(float(sgn(c, len(v)) if op == "sitofp" else c)) if c is not None else U()
        elif op in ("fptoui", "fptosi"):
            v = self.val(I.args[0])
            n = self.T.resolve(I.ty)[1]
            R[I.res] = K(int(v.v) & ((1 << n) - 1), n) if isinstance(v, F) else W((None,) * n)
        elif op in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = self.val(I.args[0]), self.val(I.args[1])
            if isinstance(a, F) and isinstance(b, F):
                R[I.res] = F({"fadd": a.v + b.v, "fsub": a.v - b.v, "fmul": a.v * b.v,
                              "fdiv": a.v / b.v if b.v else math.inf}[op])
            else:
                R[I.res] = U()
        elif op == "call":
            r = self.docall(I)
            if I.res is not None:
                R[I.res] = r
        elif op == "extractvalue":
            v = self.val(I.args[0])
            if not isinstance(v, Agg) or len(I.x) != 1:
                raise AnalysisError("%s at %s" % (I.text[:60], self.m.where(I)))
            R[I.res] = v.val[I.x[0]]
        elif op == "insertvalue":
            v = self.val(I.args[0])
            t = self.T.resolve(I.ty)
            v = Agg(v.val if isinstance(v, Agg) else [U() for _ in t[1]])
            v.val[I.x[0]] = self.val(I.args[1])
            R[I.res] = v
        elif op == "fcmp":
            a, b = self.val(I.args[0]), self.val(I.args[1])
            if isinstance(a, F) and isinstance(b, F):
                x, y = a.v, b.v
                R[I.res] = K(int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y,
                                  "ge": x >= y}[I.x[1:]]), 1)
            else:
                R[I.res] = W((None,))
        elif op in ("unsupported", "fence", "ptrtoint", "inttoptr"):
            if op == "ptrtoint":
                v = self.val(I.args[0])
                R[I.res] = v
                return None
            raise AnalysisError("%s at %s" % (I.text[:60], self.m.where(I)))
        else:
            t = self.T.resolve(I.ty)
            a, b = self.val(I.args[0]), self.val(I.args[1])
            if isinstance(a, tuple) and isinstance(b, W) and b.const == 1 and op == "xor":
                R[I.res] = self.neg(a)
            elif isinstance(a, P) and isinstance(b, P) and op == "sub" and a.obj is b.obj:
                r = self.addoff(a.off, self.scale(Lin(b.off, {}, 64) if isinstance(b.off, int) else b.off, -1))
                R[I.res] = K(r & ((1 << 64) - 1), 64) if isinstance(r, int) else r
            elif isinstance(a, tuple) or isinstance(b, tuple):
                R[I.res] = W((None,) * t[1])
            else:
                R[I.res] = self.binop(op, a, b, t[1], I.x or "", I)
        return None

    def neg(self, c):
        if c is True or c is False:
            return not c
        if c is None:
            return None
        if c[0] == "ite":
            return ("ite", c[1], self.neg(c[2]), self.neg(c[3]))
        if c[0] == "all":
            return ("all", c[1], not c[2])
        return ("lin", {"lt": "ge", "ge": "lt", "le": "gt", "gt": "le", "eq": "ne", "ne": "eq"}[c[1]], c[2])

    def cond(self, v):
        if v is True or v is False:
            return v
        if isinstance(v, tuple):
            if v[0] == "ite":
                c = self.cond(v[1])
                if c is True or c is False:
                    return self.cond(v[2] if c else v[3])
                return ("ite", c, self.cond(v[2]), self.cond(v[3]))
            if v[0] == "all":
                f = self.ev.facts
                if all(f.get(b) == x for b, x in v[1]):
                    return v[2]
                if any(b in f and f[b] != x for b, x in v[1]):
                    return not v[2]
                left = tuple((b, x) for b, x in v[1] if b not in f)
                return ("all", left, v[2])
            return v
        if isinstance(v, W):
            if v.const is not None:
                return bool(v.const)
            b = v.bits[0]
            if isinstance(b, tuple):
                x = 1
                if b[0] == "~":
                    b, x = b[1:], 0
                return self.cond(("all", ((b, x),), True))
        return None

    def docall(self, I):
        args = []
        for t, v, sret in I.args:
            args.append(self.val(v))
        if I.x[0] != "glob":
            raise AnalysisError("indirect call at %s" % self.m.where(I))
        name = I.x[1]
        d = self.ev.dem.get(name, name)
        self.ev.calls += 1
        from stl import model
        r = model(self, I, name, d, args)
        if r is not NotImplemented:
            return r
        for m in self.ev.mods:
            f = m.funcs.get(name)
            if f is not None:
                x = self.ev.call((m, f), args)
                return x[1]
        raise AnalysisError("call of %s at %s" % (d[:120], self.m.where(I)))


class TooLong(Exception):
    pass


class Undecided(Exception):
    pass
