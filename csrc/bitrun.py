"""Bits between the sample loops and the coded data: which bits of the stream or of a value a word holds.

Words are vectors of bit origins, counters constants, positions a base plus a constant.  The function is followed
from every state of a finite partition (how many bits are pending, which code length, which class); states are
made canonical by renaming the origins, so that the set of states closes.  No value is computed with."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "hdl"))
from llir import AnalysisError                                 # noqa: E402
from nest import Violation                                     # noqa: E402


class W:
    """bits, least first: 0, 1 or an origin; plus a constant k (modulo 2^n)"""
    __slots__ = ("b", "k", "h")

    def __init__(self, b, k=0):
        self.b, self.k = tuple(b), k % (1 << len(b))
        self.h = hash((self.b, self.k))

    def __eq__(self, o):
        return isinstance(o, W) and self.b == o.b and self.k == o.k

    def __hash__(self):
        return self.h

    def top(self):
        """bits needed"""
        n = len(self.b)
        while n and self.b[n - 1] == 0:
            n -= 1
        return n

    def const(self):
        v = 0
        for i, x in enumerate(self.b):
            if x == 1:
                v |= 1 << i
            elif x != 0:
                return None
        return (v + self.k) % (1 << len(self.b))


class Sy:
    """a base and a constant"""
    __slots__ = ("s", "k")

    def __init__(self, s, k):
        self.s, self.k = s, k

    def __eq__(self, o):
        return isinstance(o, Sy) and (self.s, self.k) == (o.s, o.k)

    def __hash__(self):
        return hash((self.s, self.k))


class Pr:
    """pointer: object, offset (int, Sy or a scaled word), scale"""
    __slots__ = ("o", "k", "w", "sc")

    def __init__(self, o, k=0, w=None, sc=0):
        self.o, self.k, self.w, self.sc = o, k, w, sc

    def key(self):
        return (self.o, self.k, self.w, self.sc)

    def __eq__(self, o):
        return isinstance(o, Pr) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


class Op:
    def __repr__(self):
        return "?"


OP = Op()


def sg(v, n):
    return v - (1 << n) if v >> (n - 1) & 1 else v


class St:
    def __init__(self):
        self.env, self.mem, self.facts, self.negs, self.mon = {}, {}, {}, (), None
        self.unsure = False

    def copy(self):
        s = St()
        s.env, s.mem, s.facts, s.negs, s.mon = dict(self.env), dict(self.mem), dict(self.facts), self.negs, self.mon
        s.unsure = self.unsure
        return s


class Run:
    """subclasses: load/store/call/ret, canon(st) -> (rename fn, monitor key)"""
    LIMIT = 5000000

    def __init__(self, m, fname):
        if fname not in m.funcs:
            raise AnalysisError("no function %s" % fname)
        self.m, self.f, self.Ty = m, m.funcs[fname], m.types
        self.seen = set()
        self.states = self.ops = 0
        self.liveness()
        self.violations = []
        self.undecided = False
        self.opaque = False                                    # conditions on what is not followed are expected

    def liveness(self):
        from nest import Nest
        n = Nest.__new__(Nest)
        n.f = self.f
        n.cfg()
        self.live, self.heads = n.live, n.heads
        self.uses = {}

    def where(self, I):
        return self.m.where(I)

    # ---- exploration
    def explore(self, starts):
        todo = [(s, self.f.order[0], 0) for s in starts]
        self.drain(todo)

    def drain(self, todo):
        while todo:
            st, b, i = todo.pop()
            self.states += 1
            if self.states > self.LIMIT:
                raise AnalysisError("too many states of %s" % self.f.name)
            try:
                self.block(st, b, i, todo)
            except Violation as e:
                if not st.unsure:
                    raise
                self.violations.append(str(e))

    def enter(self, st, b, prev, todo):
        new = {}
        for I in self.f.blocks[b]:
            if I.op != "phi":
                break
            new[I.res] = self.val(st, dict((p, v) for v, p in I.args)[prev])
        keep = self.live[b]
        phis = set(new)
        st.env = {k: v for k, v in st.env.items() if k in keep}
        st.env.update(new)
        self.push(st, b, 0, todo, keep | phis)

    def push(self, st, b, i, todo, keep=None):
        if b in self.heads and i == 0 or i:
            key = self.canonical(st, b, i)
            if key in self.seen:
                return
            self.seen.add(key)
        todo.append((st, b, i))

    def canonical(self, st, b, i):
        if not i:
            self.forget(st)
        f, mk = self.canon(st)

        def ren(a):
            return a if a in (0, 1) else f(a)

        def val(v):
            if isinstance(v, W):
                return W([ren(x) for x in v.b], v.k)
            if isinstance(v, Pr):
                return Pr(v.o, val(v.k) if isinstance(v.k, Sy) else v.k, val(v.w) if v.w is not None else None, v.sc)
            if isinstance(v, Sy):
                return self.resym(st, v)
            if isinstance(v, tuple) and v[0] == "and":
                return ("and", tuple(sorted(((ren(a), x) for a, x in v[1]), key=repr)), v[2])
            if isinstance(v, tuple):
                return self.recond(st, v) if v[0] == "in" else v
            return v
        used = set()

        def note(v):
            if isinstance(v, W):
                used.update(v.b)
            elif isinstance(v, Pr) and isinstance(v.w, W):
                used.update(v.w.b)
            elif isinstance(v, tuple) and v[0] == "and":
                used.update(a for a, _ in v[1])
        for v in st.env.values():
            note(v)
        for v in st.mem.values():
            note(v)
        used |= self.watched(st)
        st.env = {k: val(v) for k, v in st.env.items()}
        st.mem = {k: val(v) for k, v in st.mem.items()}
        st.facts = {ren(a): v for a, v in st.facts.items() if a in used}
        st.negs = tuple(sorted({tuple(sorted((ren(a), v) for a, v in c)) for c in st.negs
                                if all(a in used for a, _ in c)}, key=repr))
        self.renamed(st, ren)
        return (b, i, tuple(sorted(((k, v) for k, v in st.env.items() if v is not OP), key=lambda x: x[0])),
                tuple(sorted(st.mem.items(), key=lambda x: repr(x[0]))),
                tuple(sorted(st.facts.items(), key=repr)), st.negs, mk)

    def forget(self, st):
        pass

    def watched(self, st):
        return set()

    def renamed(self, st, ren):
        pass

    def resym(self, st, v):
        return v

    def recond(self, st, v):
        return ("in", v[1] - st.mon[1], v[2])

    # ---- values
    def val(self, st, v):
        k = v[0]
        if k == "reg":
            return st.env.get(v[1], OP)
        if k == "int":
            n = self.Ty.resolve(v[2])[1]
            return v[1] & ((1 << n) - 1)
        if k == "null":
            return Pr(None)
        if k == "zero":
            t = self.Ty.resolve(v[1])
            return 0 if t[0] == "i" else Pr(None) if t[0] == "ptr" else OP
        if k == "glob":
            return Pr("@" + v[1], 0) if self.constants(v[1]) else OP
        if k == "gep":
            return self.gep(st, v[1], [self.val(st, a) for a in v[2]])
        return OP

    def constants(self, name):
        """the bytes of a constant array of integers, or None"""
        g = self.m.globals.get(name)
        if not g or g[0] not in ("data", "init") or g[3] != "constant":
            return None
        if g[0] == "data":
            return g[2]
        t = self.Ty.resolve(g[1])
        if t[0] != "arr" or self.Ty.resolve(t[2])[0] != "i" or g[2][:1] != "[":
            return None
        n, out = self.Ty.size(t[2]), []
        for x in re.findall(r"i\d+ (-?\d+)", g[2][:g[2].index("]")]):
            out += [int(x) >> 8 * i & 255 for i in range(n)]
        return out if len(out) == self.Ty.size(g[1]) else None

    def fixed(self, p, n):
        """n bytes of a constant array as a number, or None"""
        if not isinstance(p, Pr) or not isinstance(p.o, str) or p.o[:1] != "@" or not isinstance(p.k, int) or p.w is not None:
            return None
        b = self.constants(p.o[1:])
        return sum(x << 8 * i for i, x in enumerate(b[p.k:p.k + n])) if 0 <= p.k and p.k + n <= len(b) else None

    def word(self, v, n):
        if isinstance(v, int):
            return W([v >> i & 1 for i in range(n)])
        return v if isinstance(v, W) and len(v.b) == n else None

    def simp(self, st, w):
        """known bits and constants in place"""
        if st.facts and any(a in st.facts for a in w.b if a not in (0, 1)):
            w = W([st.facts.get(a, a) if a not in (0, 1) else a for a in w.b], w.k)
        c = w.const()
        return w if c is None else c

    def binop(self, st, op, a, b, n):
        M = (1 << n) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op in ("shl", "lshr", "ashr") and b >= n:
                return OP
            if op in ("udiv", "urem", "sdiv", "srem"):
                if not b:
                    return OP
                if op[0] == "u":
                    return a // b if op == "udiv" else a % b
                x, y = sg(a, n), sg(b, n)
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return (q if op == "sdiv" else x - q * y) & M
            return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b,
                    "or": lambda: a | b, "xor": lambda: a ^ b, "shl": lambda: a << b, "lshr": lambda: a >> b,
                    "ashr": lambda: sg(a, n) >> b}[op]() & M
        if isinstance(a, Sy) or isinstance(b, Sy):
            if op == "add" and isinstance(a, Sy) and isinstance(b, int):
                return Sy(a.s, a.k + sg(b, n))
            if op == "add" and isinstance(b, Sy) and isinstance(a, int):
                return Sy(b.s, b.k + sg(a, n))
            if op == "sub" and isinstance(a, Sy) and isinstance(b, int):
                return Sy(a.s, a.k - sg(b, n))
            if op == "sub" and isinstance(a, Sy) and isinstance(b, Sy) and a.s == b.s:
                return (a.k - b.k) & M
            if op == "sub" and isinstance(a, Sy) and isinstance(b, Sy) and {a.s, b.s} == {"ix", "len"}:
                return Sy((a.s, b.s), a.k - b.k)
            return OP
        x, y = self.word(a, n), self.word(b, n)
        if x is None or y is None:
            return OP
        if op in ("add", "sub"):
            if isinstance(b, int):
                return self.simp(st, W(x.b, x.k + (b if op == "add" else -b)))
            if op == "add" and isinstance(a, int):
                return self.simp(st, W(y.b, y.k + a))
            if op == "add" and not x.k and not y.k and all(p == 0 or q == 0 for p, q in zip(x.b, y.b)):
                op = "or"
            else:
                return OP
        if op == "and" and isinstance(b, int) or op == "and" and isinstance(a, int):
            w, c = (x, b) if isinstance(b, int) else (y, a)
            if w.k:
                j = c.bit_length()
                if c & (c + 1) or w.k % (1 << j):
                    return OP
            return self.simp(st, W([q if c >> i & 1 else 0 for i, q in enumerate(w.b)]))
        if x.k or y.k:
            if op == "mul" and b == 1:
                return a
            return OP
        if op == "and":
            return self.simp(st, W([0 if 0 in (p, q) else p if q == 1 or p == q else q if p == 1 else None
                                    for p, q in zip(x.b, y.b)])) if all(
                0 in (p, q) or 1 in (p, q) or p == q for p, q in zip(x.b, y.b)) else OP
        if op in ("or", "xor"):
            r = []
            for p, q in zip(x.b, y.b):
                if p == 0 or q == 0:
                    r.append(q if p == 0 else p)
                elif op == "or" and (p == 1 or q == 1):
                    r.append(1)
                elif p == q:
                    r.append(p if op == "or" else 0)
                else:
                    return OP
            return self.simp(st, W(r))
        if isinstance(b, int):
            if op == "shl" and b < n:
                return self.simp(st, W((0,) * b + x.b[:n - b]))
            if op == "lshr" and b < n:
                return self.simp(st, W(x.b[b:] + (0,) * b))
            if op == "ashr" and b < n and x.b[-1] == 0:
                return self.simp(st, W(x.b[b:] + (0,) * b))
            if op in ("udiv", "sdiv", "urem", "srem", "mul") and b and b & (b - 1) == 0 and \
                    (op[0] == "u" or op == "mul" or x.b[-1] == 0):
                j = b.bit_length() - 1
                if op == "mul":
                    return self.simp(st, W((0,) * j + x.b[:n - j]))
                return self.simp(st, W(x.b[j:] + (0,) * j if op[1:] == "div" else x.b[:j] + (0,) * (n - j)))
        return OP

    def known(self, st, w):
        return w

    def bounds(self, w, signed):
        """(least, greatest) or None"""
        n = len(w.b)
        if signed and w.b[-1] != 0 and w.b[-1] != 1:
            return None
        lo = sum(1 << i for i, x in enumerate(w.b) if x == 1)
        hi = sum(1 << i for i, x in enumerate(w.b) if x != 0)
        if signed:
            lo, hi = sg(lo, n), sg(hi, n)
            k = sg(w.k, n)
            lo, hi = lo + k, hi + k
            if lo < -(1 << (n - 1)) or hi >= 1 << (n - 1):
                return None
        else:
            lo, hi = lo + w.k, hi + w.k
            if hi >= 1 << n:
                return None
        return lo, hi

    def icmp(self, st, p, a, b, n):
        """True, False, ("and", literals, polarity), ("sym", Sy, Sy, pred) or None"""
        if isinstance(a, Pr) or isinstance(b, Pr):
            if isinstance(a, Pr) and isinstance(b, Pr) and (a.o is None or b.o is None) and p in ("eq", "ne"):
                return (a.o is None and b.o is None) == (p == "eq")
            return None
        if isinstance(a, int) and isinstance(b, int):
            x, y = (sg(a, n), sg(b, n)) if p[0] == "s" else (a, b)
            return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[
                p if p in ("eq", "ne") else p[1:]]
        if isinstance(a, Sy) and a.s in (("len", "ix"), ("ix", "len")) and isinstance(b, int):
            a, b = Sy(a.s[0], a.k), Sy(a.s[1], sg(b, n))
        if isinstance(a, int) and isinstance(b, Sy):
            p = {"ult": "ugt", "ule": "uge", "ugt": "ult", "uge": "ule", "slt": "sgt", "sle": "sge", "sgt": "slt",
                 "sge": "sle"}.get(p, p)
            a, b = b, a
        if isinstance(a, Sy) and isinstance(b, int) and p[0] != "u" and a.s in self.LEAST:
            lo, c, q = self.LEAST[a.s] + a.k, sg(b, n), p if p in ("eq", "ne") else p[1:]
            if lo > c or lo == c and q in ("lt", "ge"):
                return q in ("ge", "gt", "ne")
        if isinstance(a, Sy) or isinstance(b, Sy):
            return self.symcmp(st, p if p in ("eq", "ne") else p[1:], a, b) \
                if isinstance(a, Sy) and isinstance(b, Sy) else None
        x, y = self.word(a, n), self.word(b, n)
        if x is None or y is None:
            return ("unk",) if isinstance(a, W) or isinstance(b, W) else None
        if isinstance(a, int):
            p = {"ult": "ugt", "ule": "uge", "ugt": "ult", "uge": "ule", "slt": "sgt", "sle": "sge", "sgt": "slt",
                 "sge": "sle"}.get(p, p)
            a, b, x, y = b, a, y, x
        if not isinstance(b, int):
            return ("unk",)
        q = p if p in ("eq", "ne") else p[1:]
        r = self.bounds(self.known(st, x), p[0] == "s")
        c = sg(b, n) if p[0] == "s" else b
        if r:
            lo, hi = r
            if q in ("eq", "ne") and (c < lo or c > hi):
                return q == "ne"
            if q in ("lt", "ge") and (hi < c or lo >= c):
                return (hi < c) == (q == "lt")
            if q in ("le", "gt") and (hi <= c or lo > c):
                return (hi <= c) == (q == "le")
        if x.k:
            return ("unk",)
        if q in ("eq", "ne"):
            lits = []
            for i, z in enumerate(x.b):
                v = b >> i & 1
                if z in (0, 1):
                    if z != v:
                        return q == "ne"
                else:
                    lits.append((z, v))
            d = dict(lits)
            if any(d[z] != v for z, v in lits):
                return q == "ne"
            return ("and", tuple(sorted(set(lits), key=repr)), q == "eq")
        if r and r[0] >= 0 and q in ("lt", "ge", "gt", "le"):
            # against a power of two: some bit above is set
            c2 = c if q in ("lt", "ge") else c + 1
            if c2 > 0 and c2 & (c2 - 1) == 0:
                j = c2.bit_length() - 1
                hi = [z for z in x.b[j:] if z != 0]
                if 1 in hi:
                    return q in ("ge", "gt")
                return ("and", tuple(sorted(((z, 0) for z in set(hi)), key=repr)), q in ("lt", "le"))
        return ("unk",)

    LEAST = {}                                                 # least values of symbols

    def symcmp(self, st, p, a, b):
        return None

    def truth(self, st, c):
        """[(state, truth)]"""
        if c is True or c is False:
            return [(st, c)]
        if c is None and self.opaque:
            return [(st, True), (st.copy(), False)]
        if c is None or c[0] == "unk":
            self.undecided = True
            st.unsure = True
            return [(st, True), (st.copy(), False)]
        if c[0] == "and":
            lits = [(a, v) for a, v in c[1] if st.facts.get(a) is None]
            if any(st.facts.get(a, v) != v for a, v in c[1]):
                return [(st, not c[2])]
            if not lits:
                return [(st, c[2])]
            if any(set(n) <= set(lits) for n in st.negs):
                return [(st, not c[2])]
            o = st.copy()
            for a, v in lits:
                st.facts[a] = v
            self.learn(st)
            out = [(st, c[2])]
            if len(lits) == 1:
                o.facts[lits[0][0]] = 1 - lits[0][1]
            else:
                o.negs = o.negs + (tuple(lits),)
            # a conjunction known false with one literal left
            ok = self.propagate(o)
            self.learn(o)
            if ok:
                out.append((o, not c[2]))
            return out if self.propagate(st) else out[1:]
        return self.sym(st, c)

    def propagate(self, st):
        ch = True
        while ch:
            ch = False
            keep = []
            for n in st.negs:
                if any(st.facts.get(a, v) != v for a, v in n):
                    continue
                rest = [(a, v) for a, v in n if a not in st.facts]
                if not rest:
                    return False
                if len(rest) == 1:
                    st.facts[rest[0][0]] = 1 - rest[0][1]
                    ch = True
                else:
                    keep.append(tuple(rest))
            st.negs = tuple(keep)
        return True

    def learn(self, st):
        """new facts replace their bits"""
        for d in (st.env, st.mem):
            for k, v in d.items():
                if isinstance(v, W):
                    d[k] = self.simp(st, v)

    def sym(self, st, c):
        raise AnalysisError("condition on positions")

    # ---- instructions
    def block(self, st, b, i, todo):
        ins = self.f.blocks[b]
        while True:
            I = ins[i]
            i += 1
            o = I.op
            self.ops += 1
            if o == "phi":
                continue
            if o == "br":
                if len(I.args) == 1:
                    return self.enter(st, I.args[0], b, todo)
                for s, v in self.truth(st, self.cond(st, I.x)):
                    self.enter(s, I.args[0 if v else 1], b, todo)
                return
            if o == "switch":
                v = self.val(st, I.x)
                if isinstance(v, int):
                    n = len(bin(v))
                    t = {k & 0xffffffff: x for k, x in I.args[1]}
                    return self.enter(st, t.get(v, I.args[0]), b, todo)
                for t in {x for _, x in I.args[1]} | {I.args[0]}:
                    self.enter(st.copy(), t, b, todo)
                return
            if o == "ret":
                return self.ret(st, self.val(st, I.args[0]) if I.args else None, I)
            if o == "unreachable":
                return
            if o == "select":
                r = self.truth(st, self.cond(st, I.args[0]))
                for s, v in r:
                    s.env[I.res] = self.val(s, I.args[1 if v else 2])
                if len(r) == 1:
                    st = r[0][0]
                    continue
                for s, v in r:
                    todo.append((s, b, i))
                return
            r = self.inst(st, I)
            if r is not None:
                for s in r:
                    self.push(s, b, i, todo)
                return

    def cond(self, st, v):
        x = self.val(st, v)
        if isinstance(x, int):
            return bool(x)
        if isinstance(x, W) and x.const() is not None:
            return bool(x.const())
        if isinstance(x, tuple):
            return x
        return None

    def inst(self, st, I):
        o = I.op
        if o in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "sdiv", "urem", "srem"):
            a, b = self.val(st, I.args[0]), self.val(st, I.args[1])
            n = self.Ty.resolve(I.ty)[1]
            st.env[I.res] = OP if isinstance(a, tuple) or isinstance(b, tuple) or n == 1 and not (
                isinstance(a, int) and isinstance(b, int)) else self.binop(st, o, a, b, n)
            if n == 1 and isinstance(a, tuple) and o == "xor" and b == 1 and a[0] == "and":
                st.env[I.res] = ("and", a[1], not a[2])
        elif o == "icmp":
            t = self.Ty.resolve(I.ty)
            a, b = self.val(st, I.args[0]), self.val(st, I.args[1])
            c = self.icmp(st, I.x, a, b, t[1] if t[0] == "i" else 64)
            st.env[I.res] = int(c) if c in (True, False) and c is not None else c if c is not None else OP
        elif o in ("zext", "sext", "trunc", "freeze"):
            v = self.val(st, I.args[0])
            src, dst = self.Ty.resolve(I.x), self.Ty.resolve(I.ty)
            st.env[I.res] = v if o == "freeze" else self.cast(st, o, v, src[1], dst[1])
        elif o == "getelementptr":
            st.env[I.res] = self.gep(st, I.ty, [self.val(st, v) for _, v in I.args])
        elif o == "load" and self.fixed(self.val(st, I.args[0]), self.Ty.size(I.ty)) is not None:
            st.env[I.res] = self.fixed(self.val(st, I.args[0]), self.Ty.size(I.ty))
        elif o == "load":
            return self.load(st, I, self.val(st, I.args[0]), self.Ty.size(I.ty))
        elif o == "store":
            return self.store(st, I, self.val(st, I.args[1]), self.val(st, I.args[0]), self.Ty.size(I.ty))
        elif o == "call":
            return self.call(st, I)
        elif I.res:
            st.env[I.res] = OP
        return None

    def cast(self, st, o, v, src, dst):
        if isinstance(v, int):
            return v & ((1 << dst) - 1) if o != "sext" else sg(v, src) & ((1 << dst) - 1)
        if isinstance(v, Sy):
            return v if dst >= 32 else OP
        if isinstance(v, W):
            if o == "trunc":
                return self.simp(st, W(v.b[:dst], v.k))
            if v.k:
                r = self.bounds(v, o == "sext")
                if not r:
                    return OP
                k = sg(v.k, src) if o == "sext" else v.k
                e = v.b[-1] if o == "sext" else 0
                return W(v.b + (e,) * (dst - src), k)
            return W(v.b + ((v.b[-1] if o == "sext" else 0),) * (dst - src))
        return OP

    def gep(self, st, ty, vs):
        p = vs[0]
        if not isinstance(p, Pr):
            return OP
        o, k, w, sc = p.key()
        cur = ty
        for i, v in enumerate(vs[1:]):
            if i == 0:
                sz = self.Ty.size(ty)
            else:
                r = self.Ty.resolve(cur)
                if r[0] == "struct":
                    fo, cur = self.Ty.field(r, v)
                    k = self.plus(k, fo)
                    continue
                cur = r[2]
                sz = self.Ty.size(cur)
            if isinstance(v, int):
                k = self.plus(k, sg(v, 64) * sz if v >> 63 else sg(v, 32) * sz if v < 1 << 32 and v >> 31 else v * sz)
            elif isinstance(v, Sy) and sz == 1 and isinstance(k, int):
                k = Sy(v.s, v.k + k)
            elif isinstance(v, W) and w is None:
                w, sc = v, sz
            else:
                return Pr(o, "?", None, 0)
        return Pr(o, k, w, sc)

    def plus(self, k, c):
        return Sy(k.s, k.k + c) if isinstance(k, Sy) else k if k == "?" else k + c

    def load(self, st, I, p, n):
        raise NotImplementedError

    def store(self, st, I, p, v, n):
        raise NotImplementedError

    def call(self, st, I):
        nm = I.x[1] if I.x[0] == "glob" else ""
        if not nm.startswith(("llvm.lifetime", "llvm.dbg", "llvm.memset", "llvm.abs", "llvm.ctlz", "printf", "abs",
                              "free", "calloc", "malloc")):
            raise AnalysisError("call of %s at %s" % (nm, self.where(I)))
        if I.res:
            st.env[I.res] = OP
        return None

    def ret(self, st, v, I):
        pass
