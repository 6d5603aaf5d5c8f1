"""liblj92's frames: opening a file, the frame header, the encoder's header and the order of its phases.

Straight code with a few counted loops, followed path by path; values are words of named bits or polynomials in
named quantities."""
from bitrun import W, Pr, OP, St, Run, sg
from lj import off
from llir import AnalysisError
from nest import Violation, module


class Po:
    """polynomial: {monomial (sorted tuple of atoms): coefficient}"""
    __slots__ = ("d", "h")

    def __init__(self, d):
        self.d = {m: c for m, c in d.items() if c}
        self.h = hash(frozenset(self.d.items()))

    def __eq__(self, o):
        return isinstance(o, Po) and self.d == o.d

    def __hash__(self):
        return self.h

    def __repr__(self):
        return " + ".join("*".join([str(c)] * (c != 1 or not m) + [str(a if not isinstance(a, tuple) else "%s[%s]" % a[:2])
                                                                   for a in m])
                          for m, c in sorted(self.d.items(), key=repr)) or "0"


def atom(a):
    return Po({(a,): 1})


def po(v, n=32):
    if isinstance(v, Po):
        return v
    if isinstance(v, int):
        return Po({(): sg(v, n)})
    if isinstance(v, W) and not v.k:
        t = v.top()
        names = {x[0] for x in v.b[:t] if isinstance(x, tuple)}
        if t and len(names) == 1 and all(x == (v.b[0][0], i) for i, x in enumerate(v.b[:t]) if isinstance(v.b[0], tuple)) \
                and isinstance(v.b[0], tuple) and t in (8, 16, 32):
            return atom(v.b[0][0])
        d = {}
        for i, x in enumerate(v.b):
            if x == 1:
                d[()] = d.get((), 0) + (1 << i)
            elif x != 0:
                d[(x,)] = d.get((x,), 0) + (1 << i)
        return Po(d)
    return None


def padd(a, b, k=1):
    d = dict(a.d)
    for m, c in b.d.items():
        d[m] = d.get(m, 0) + k * c
    return Po(d)


def pmul(a, b):
    d = {}
    for m, c in a.d.items():
        for n, e in b.d.items():
            q = tuple(sorted(m + n, key=repr))
            d[q] = d.get(q, 0) + c * e
    return Po(d)


def name(s, n=32):
    return W([(s, i) for i in range(n)])


class Glue(Run):
    def __init__(self, fname, noinline):
        Run.__init__(self, module(noinline), fname)
        self.done = 0

    def canon(self, st):
        return (lambda a: a), st.mon

    def push(self, st, b, i, todo, keep=None):
        todo.append((st, b, i))

    def binop(self, st, op, a, b, n):
        r = Run.binop(self, st, op, a, b, n) if not isinstance(a, Po) and not isinstance(b, Po) else OP
        if r is not OP:
            return r
        x, y = po(a, n), po(b, n)
        if x is None or y is None:
            return OP
        if op in ("add", "sub"):
            z = padd(x, y, 1 if op == "add" else -1)
        elif op == "mul":
            z = pmul(x, y)
        elif op == "shl" and isinstance(b, int):
            z = pmul(x, Po({(): 1 << b}))
        else:
            return OP
        return z if any(z.d) else z.d.get((), 0) & ((1 << n) - 1)

    def cast(self, st, o, v, src, dst):
        return v if isinstance(v, Po) else Run.cast(self, st, o, v, src, dst)

    def gep(self, st, ty, vs):
        p = vs[0]
        if not isinstance(p, Pr):
            return OP
        o, k = p.o, po(p.k)
        cur = ty
        for i, v in enumerate(vs[1:]):
            if i == 0:
                sz = self.Ty.size(ty)
            else:
                r = self.Ty.resolve(cur)
                if r[0] == "struct":
                    fo, cur = self.Ty.field(r, v)
                    k = padd(k, Po({(): fo}))
                    continue
                cur = r[2]
                sz = self.Ty.size(cur)
            x = po(v, 64 if isinstance(v, int) and v >> 32 else 32)
            if x is None:
                return Pr(o, "?")
            k = padd(k, pmul(x, Po({(): sz})))
        return Pr(o, k if any(k.d) else k.d.get((), 0))

    def icmp(self, st, p, a, b, n):
        r = Run.icmp(self, st, p, a, b, n) if not isinstance(a, Po) and not isinstance(b, Po) else None
        if r in (True, False) and r is not None or isinstance(r, tuple) and r[0] == "and":
            return r
        if isinstance(a, Pr) or isinstance(b, Pr):
            return r
        x, y = po(a, n), po(b, n)
        if x is None or y is None:
            return None
        d = padd(x, y, -1)
        q = p if p in ("eq", "ne") else p[1:]
        if not any(d.d):
            v = d.d.get((), 0)
            return {"eq": v == 0, "ne": v != 0, "lt": v < 0, "le": v <= 0, "gt": v > 0, "ge": v >= 0}[q]
        return ("cmp", q, d)

    def sym(self, st, c):
        if c[0] != "cmp":
            return [(st, True), (st.copy(), False)]
        return self.compare(st, c[1], c[2])

    def compare(self, st, q, d):
        return [(st, True), (st.copy(), False)]

    def field(self, k):
        best = max((v for v in self.o.values() if v <= k), default=None)
        return {v: f for f, v in self.o.items()}.get(best)

    def load(self, st, I, p, n):
        st.env[I.res] = OP
        if isinstance(p, Pr) and p.o == "self" and isinstance(p.k, int):
            st.env[I.res] = st.mem.get(("self", p.k), OP)
        elif isinstance(p, Pr) and ((p.o, p.k)) in st.mem:
            st.env[I.res] = st.mem[(p.o, p.k)]
        return None

    def store(self, st, I, p, v, n):
        if isinstance(p, Pr) and p.o is None:
            raise Violation("write through a null pointer at %s" % self.where(I))
        if not isinstance(p, Pr) or p.k == "?":
            raise AnalysisError("write at an unknown place at %s" % self.where(I))
        st.mem[(p.o, p.k)] = v
        return None

    def go(self, st):
        self.explore([st])


class Header(Glue):
    """writeHeader: the markers and fields that describe the image and its tables"""

    def __init__(self):
        Glue.__init__(self, "writeHeader", ("nextdiff",))
        self.o = off("lje", "image", "width", "height", "bitdepth", "encoded", "encodedWritten", "encodedLength", "hist",
                     "bits", "huffval", "huffenc")

    def run(self):
        st = St()
        o = self.o
        st.env[self.f.params[0][1]] = Pr("self", 0)
        for f in ("width", "height", "bitdepth"):
            st.mem[("self", o[f])] = W(name(f, 16).b + (0,) * 16)
        st.mem[("self", o["encoded"])] = Pr("out", 0)
        st.mem[("self", o["encodedWritten"])] = atom("w")
        st.mon = ((), None)                                    # bytes written; number of values when known
        self.go(st)

    def load(self, st, I, p, n):
        if isinstance(p, Pr) and p.o == "self" and isinstance(p.k, int):
            for f in ("bits", "huffval"):
                d = p.k - self.o[f]
                if 0 <= d < 18 * 4 and d % 4 == 0 and n == 4:
                    st.env[I.res] = atom((f, d // 4))
                    return None
        return Glue.load(self, st, I, p, n)

    def binop(self, st, op, a, b, n):
        if isinstance(a, Po) and isinstance(b, int):
            c = self.count(a)
            if c and c[0] == 1 and c[1] >= 0:                  # there are at most 17 values
                if op in ("lshr", "ashr", "udiv", "sdiv"):
                    f = (lambda v: v >> b) if op.endswith("shr") else lambda v: v // max(b, 1)
                    if f(c[1]) == f(c[1] + 17):
                        return f(c[1])
                if op == "and" and b & (b + 1) == 0 and c[1] + 17 <= b:
                    return a
        return Glue.binop(self, st, op, a, b, n)

    def count(self, d):
        """sign and constant when the polynomial is plus or minus the number of values, plus a constant"""
        for s in (1, -1):
            c = {m: s * k for m, k in d.d.items()}
            k = c.pop((), 0)
            c.pop((("bits", 0),), None) if c.get((("bits", 0),)) == 1 else None
            if c == {(("bits", i),): 1 for i in range(1, 17)}:
                return s, s * k
        return None

    def compare(self, st, q, d):
        c = self.count(d)
        if c is None:
            if len(st.mon[0]) > 5:
                self.length(*st.mon[0][5])
            raise AnalysisError("condition in writeHeader")
        s, k = c                                               # s*(count) + k  q  0
        bs, known = st.mon
        if s < 0:
            q = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(q, q)
            k = -k
        # count + k  q  0   <=>  count q -k
        n = -k
        if q == "gt":
            n, q = n + 1, "ge"
        if q == "le":
            n, q = n + 1, "lt"
        if q in ("eq", "ne"):
            pol = q == "eq"
            if known is not None or n < 0:
                return [(st, (known == n) == pol)]
            st.mon = (bs, min(n, 17))                          # count == n with everything smaller excluded
            if n >= 17:
                return [(st, (n == 17) == pol)]
            o = st.copy()
            o.mon = (bs, None)
            return [(st, pol), (o, not pol)]
        pol = q == "ge"                                        # true means count >= n
        if known is not None:
            return [(st, (known >= n) == pol)]
        if n <= 0:
            return [(st, pol)]
        if n > 17:                                             # there are 17 classes
            st.mon = (bs, 17)
            return [(st, not pol)]
        # count < n with everything smaller excluded: count == n - 1
        o = st.copy()
        o.mon = (bs, n - 1)
        return [(st, pol), (o, not pol)]

    def store(self, st, I, p, v, n):
        bs, known = st.mon
        if isinstance(p, Pr) and p.o == "out":
            k = po(p.k)
            if n != 1 or k is None or k != padd(atom("w"), Po({(): len(bs)})):
                raise Violation("a byte of the header is not written behind the one before, at %s" % self.where(I))
            st.mon = (bs + ((v, self.where(I)),), known)
            return None
        if isinstance(p, Pr) and p.o == "self" and p.k == self.o["encodedWritten"]:
            st.mem[("self", p.k)] = v
            return None
        raise Violation("writeHeader writes something else at %s" % self.where(I))

    def call(self, st, I):
        nm = I.x[1] if I.x[0] == "glob" else ""
        if nm.startswith(("llvm.memcpy", "memcpy")):           # bytes of a constant
            d, s, n = [self.val(st, a[1]) for a in I.args[:3]]
            if isinstance(n, int) and n < 256 and isinstance(d, Pr) and isinstance(s, Pr) and isinstance(s.k, int):
                for i in range(n):
                    v = self.fixed(Pr(s.o, s.k + i), 1)
                    k = po(d.k)
                    if v is None or k is None:
                        raise AnalysisError("call of %s at %s" % (nm, self.where(I)))
                    k = padd(k, Po({(): i}))
                    self.store(st, I, Pr(d.o, k if any(k.d) else k.d.get((), 0)), v, 1)
                return None
        return Glue.call(self, st, I)

    def length(self, b, where):
        d = padd(po(b, 8), Po({(): -19})) if po(b, 8) is not None else Po({})
        if self.count(d) != (1, 0):
            raise Violation("the header's table length is not 19 and one for each code, written at %s" % where)

    def ret(self, st, v, I):
        bs, cnt = st.mon
        if cnt is None:
            raise Violation("the number of values written does not depend on the table's counts")
        want = [("marker", 0xff), ("start of image", 0xd8), ("marker", 0xff), ("table", 0xc4), ("table length", 0),
                ("table length", "len"), ("table id", 0)]
        want += [("codes of %d bits" % i, atom(("bits", i))) for i in range(1, 17)]
        want += [("value %d" % i, atom(("huffval", i))) for i in range(cnt)]

        def be(f):
            return [(f, W([(f, i + 8) for i in range(8)])), (f, W([(f, i) for i in range(8)]))]
        want += [("marker", 0xff), ("frame", 0xc3), ("frame length", 0), ("frame length", 11),
                 ("bit depth", W([("bitdepth", i) for i in range(8)]))] + be("height") + be("width") + \
            [("components", 1), ("component id", "id"), ("sampling", 0x11), ("quantisation", 0),
             ("marker", 0xff), ("scan", 0xda), ("scan length", 0), ("scan length", 8), ("components", 1),
             ("component id", "id"), ("component's table", 0), ("predictor", 6), ("end of spectrum", 0),
             ("point transform", 0)]
        if len(bs) != len(want):
            raise Violation("the header has %d bytes instead of %d when the table has %d codes" % (
                len(bs), len(want), cnt))
        cid = None
        for (what, x), (b, where) in zip(want, bs):
            self.done += 1
            if x == "len":
                self.length(b, where)
                ok = True
            elif x == "id":
                ok = isinstance(b, int) and cid in (None, b)
                cid = b
            else:
                ok = b == x
            if not ok:
                raise Violation("the header's %s is wrong, written at %s" % (what, where))
        if st.mem.get(("self", self.o["encodedWritten"])) != padd(atom("w"), Po({(): len(bs)})):
            raise Violation("writeHeader does not keep the number of bytes written")


class Encode(Glue):
    """lj92_encode: the phases in order, their failures passed on, the result handed out"""
    PHASES = ("frequencyScan", "createEncodeTable", "writeHeader", "writeBody")
    PARAMS = ("image", "width", "height", "bitdepth", "readLength", "skipLength", "delinearize", "delinearizeLength")

    def __init__(self):
        Glue.__init__(self, "lj92_encode", ("nextdiff",) + self.PHASES)
        self.o = off("lje", *(self.PARAMS + ("encoded", "encodedWritten", "encodedLength", "hist")))

    def run(self):
        st = St()
        ps = [x[1] for x in self.f.params]
        for r, f in zip(ps, self.PARAMS):
            st.env[r] = Pr("arg_" + f, 0) if f in ("image", "delinearize") else name(f)
        st.env[ps[8]], st.env[ps[9]] = Pr("encoded", 0), Pr("length", 0)
        st.mon = ((), None, 0, ())                             # phases done, failure, bytes of the end marker, freed
        self.go(st)

    def call(self, st, I):
        nm = I.x[1] if I.x[0] == "glob" else ""
        args = [self.val(st, a[1]) for a in I.args]
        done, bad, eoi, freed = st.mon
        o = self.o
        if nm in ("calloc", "malloc"):
            sz = pmul(po(args[0], 64), po(args[1], 64)) if nm == "calloc" else po(args[0], 64)
            q = st.copy()
            q.env[I.res] = Pr(None)
            q.mon = (done, -2, eoi, freed)
            if not any(sz.d):
                if sz.d.get((), 0) < o["sizeof"]:
                    raise Violation("the encoder's state does not fit at %s" % self.where(I))
                st.env[I.res] = Pr("self", 0)
            else:
                st.env[I.res] = Pr("out", 0)
                st.mem["room"] = sz
            return [st, q]
        if nm == "realloc":
            if not isinstance(args[0], Pr) or args[0] != Pr("out", 0) or \
                    po(args[1], 64) != st.mem.get(("self", o["encodedWritten"])):
                raise Violation("the result is not cut to the bytes written at %s" % self.where(I))
            st.env[I.res] = Pr("result", 0)
            return None
        if nm == "free":
            if isinstance(args[0], Pr) and args[0].o:
                if args[0].o in freed:
                    raise Violation("%s is freed twice at %s" % (args[0].o, self.where(I)))
                st.mon = (done, bad, eoi, freed + (args[0].o,))
            return None
        if nm in self.PHASES:
            if bad is not None:
                raise Violation("%s is run after a failure, at %s" % (nm, self.where(I)))
            if len(done) >= len(self.PHASES) or nm != self.PHASES[len(done)]:
                raise Violation("%s is run after %s, at %s" % (nm, " ".join(done) or "nothing", self.where(I)))
            self.done += 1
            for f in self.PARAMS:
                want = Pr("arg_" + f, 0) if f in ("image", "delinearize") else name(f)
                if st.mem.get(("self", o[f])) != want:
                    raise Violation("%s is run without the caller's %s, at %s" % (nm, f, self.where(I)))
            room = st.mem.get("room")
            if st.mem.get(("self", o["encoded"])) != Pr("out", 0) or room is None or \
                    po(st.mem.get(("self", o["encodedLength"]))) != room:
                raise Violation("%s is run without the room there is being known, at %s" % (nm, self.where(I)))
            if room.d.get((), 0) < 70 or any(c < 0 for c in room.d.values()):
                raise Violation("the room does not hold the header, at %s" % self.where(I))
            st.mon = (done + (nm,), bad, eoi, freed)
            if nm[:5] == "write":
                st.mem[("self", o["encodedWritten"])] = atom("written after " + nm)
            if nm in ("frequencyScan", "writeBody"):
                q = st.copy()
                err = -4 if nm == "frequencyScan" else -5
                q.mon = (done + (nm,), err, eoi, freed)
                q.env[I.res], st.env[I.res] = err & 0xffffffff, 0
                return [st, q]
            return None
        return Glue.call(self, st, I)

    def store(self, st, I, p, v, n):
        done, bad, eoi, freed = st.mon
        if isinstance(p, Pr) and p.o == "out":
            base = atom("written after writeBody")
            if len(done) != 4 or n != 1 or eoi > 1 or po(p.k) != padd(base, Po({(): eoi})) or v != (0xff, 0xd9)[eoi]:
                raise Violation("a byte other than the end marker's is written at %s" % self.where(I))
            st.mon = (done, bad, eoi + 1, freed)
            return None
        if isinstance(p, Pr) and p.o in freed:
            raise Violation("freed memory is written at %s" % self.where(I))
        return Glue.store(self, st, I, p, v, n)

    def load(self, st, I, p, n):
        if isinstance(p, Pr) and p.o in st.mon[3]:
            raise Violation("freed memory is read at %s" % self.where(I))
        return Glue.load(self, st, I, p, n)

    def ret(self, st, v, I):
        done, bad, eoi, freed = st.mon
        self.done += 1
        if not isinstance(v, int):
            raise AnalysisError("result of lj92_encode")
        v = sg(v, 32)
        if bad is not None:
            if v == 0:
                raise Violation("success is returned after a failure (%s) at %s" % (bad, self.where(I)))
            return
        if v:
            raise Violation("an error is returned without one at %s" % self.where(I))
        end = padd(atom("written after writeBody"), Po({(): 2}))
        if len(done) != 4 or eoi != 2:
            raise Violation("success is returned with only %s%s done, at %s" % (
                " ".join(done), " and the end marker" if eoi == 2 else "", self.where(I)))
        if st.mem.get(("encoded", 0)) not in (Pr("result", 0), Pr("out", 0)) or "result" in freed or \
                st.mem.get(("encoded", 0)).o in freed:
            raise Violation("the encoded bytes are not handed out, at %s" % self.where(I))
        if po(st.mem.get(("length", 0))) != end:
            raise Violation("the length handed out is not the bytes written, at %s" % self.where(I))


class Open(Glue):
    """lj92_open: the handle has two rows for the frame the file describes, and the caller gets its dimensions"""

    def __init__(self):
        Glue.__init__(self, "lj92_open", ("nextdiff", "findSoI"))
        self.o = off("ljp", "data", "datalen", "ix", "x", "y", "bits", "components", "rowcache", "outrow", "linearize")

    def run(self):
        st = St()
        ps = [x[1] for x in self.f.params]
        st.env[ps[0]], st.env[ps[1]], st.env[ps[2]] = Pr("handle", 0), Pr("data", 0), name("length")
        for r, f in zip(ps[3:], ("width", "height", "depth", "components")):
            st.env[r] = Pr("get_" + f, 0)
        st.mon = (0, None, ())
        self.go(st)

    def call(self, st, I):
        nm = I.x[1] if I.x[0] == "glob" else ""
        args = [self.val(st, a[1]) for a in I.args]
        o = self.o
        found, bad, freed = st.mon
        if nm in ("calloc", "malloc"):
            sz = pmul(po(args[0], 64), po(args[1], 64)) if nm == "calloc" else po(args[0], 64)
            q = st.copy()
            q.env[I.res] = Pr(None)
            q.mon = (found, -2, freed)
            if not any(sz.d):
                if sz.d.get((), 0) < o["sizeof"] or nm != "calloc":
                    raise Violation("the decoder's state is not cleared or does not fit at %s" % self.where(I))
                st.env[I.res] = Pr("self", 0)
                for f in o.values():
                    st.mem[("self", f)] = 0
                for f in ("rowcache", "linearize", "outrow"):
                    st.mem[("self", o[f])] = Pr(None)
            else:
                two = pmul(pmul(atom("x"), atom("components")), Po({(): 4}))
                d = padd(sz, two, -1)
                if any(c < 0 for c in d.d.values()):
                    raise Violation("the row cache does not hold two rows at %s" % self.where(I))
                st.env[I.res] = Pr("rows", 0)
            return [st, q]
        if nm == "findSoI":
            self.done += 1
            if found or st.mem.get(("self", o["data"])) != Pr("data", 0) or \
                    st.mem.get(("self", o["datalen"])) != name("length") or st.mem.get(("self", o["ix"])) != 0:
                raise Violation("the file is parsed without its data, length and start, at %s" % self.where(I))
            for f in ("x", "y", "bits", "components"):
                st.mem[("self", o[f])] = name(f)
            q = st.copy()
            q.mon = (1, -1, freed)
            st.mon = (1, bad, freed)
            q.env[I.res], st.env[I.res] = 0xffffffff, 0
            return [st, q]
        if nm == "free":
            if isinstance(args[0], Pr) and args[0].o:
                if args[0].o in freed:
                    raise Violation("%s is freed twice at %s" % (args[0].o, self.where(I)))
                st.mon = (found, bad, freed + (args[0].o,))
            return None
        return Glue.call(self, st, I)

    def compare(self, st, q, d):
        # a condition on the frame's fields: a frame may be refused
        a, b = st, st.copy()
        return [(a, True), (b, False)]

    def ret(self, st, v, I):
        found, bad, freed = st.mon
        self.done += 1
        if not isinstance(v, int):
            raise AnalysisError("result of lj92_open")
        v = sg(v, 32)
        o = self.o
        if v:
            if st.mem.get(("handle", 0)) not in (None, Pr(None)):
                raise Violation("a handle is handed out with an error at %s" % self.where(I))
            return
        if bad is not None or not found:
            raise Violation("success is returned without a frame (%s) at %s" % (bad, self.where(I)))
        if st.mem.get(("handle", 0)) != Pr("self", 0) or "self" in freed or "rows" in freed:
            raise Violation("the handle is not handed out at %s" % self.where(I))
        row = pmul(pmul(atom("x"), atom("components")), Po({(): 2}))
        a, b = st.mem.get(("self", o["outrow"])), st.mem.get(("self", o["outrow"] + 8))
        if {a, b} != {Pr("rows", 0), Pr("rows", row)}:
            raise Violation("the two rows do not follow each other in the row cache at %s" % self.where(I))
        for f, g in (("width", "x"), ("height", "y"), ("depth", "bits"), ("components", "components")):
            if st.mem.get(("get_" + f, 0)) != name(g):
                raise Violation("the caller gets a wrong %s at %s" % (f, self.where(I)))


class Frame(Glue):
    """parseSof3: the frame's fields from their places in the data"""

    def __init__(self):
        Glue.__init__(self, "parseSof3", ("nextdiff", "parseSof3"))
        self.o = off("ljp", "data", "datalen", "ix", "x", "y", "bits", "components", "cnt")

    def run(self):
        st = St()
        o = self.o
        st.env[self.f.params[0][1]] = Pr("self", 0)
        st.mem = {("self", o["data"]): Pr("data", 0), ("self", o["datalen"]): atom("datalen"),
                  ("self", o["ix"]): atom("ix")}
        st.mon = ()
        self.hits = 0
        self.go(st)
        if not self.hits:
            raise Violation("no frame is accepted")

    def load(self, st, I, p, n):
        if isinstance(p, Pr) and p.o == "data":
            k = padd(po(p.k), atom("ix"), -1) if p.k != "?" else None
            if n != 1 or k is None or any(k.d):
                raise Violation("data away from the frame header are read at %s" % self.where(I))
            st.env[I.res] = W([("byte%d" % k.d.get((), 0), i) for i in range(8)])
            return None
        return Glue.load(self, st, I, p, n)

    def ret(self, st, v, I):
        if not isinstance(v, int):
            raise AnalysisError("result of parseSof3")
        if v:
            return
        o = self.o
        self.hits += 1

        def get(f):
            return po(st.mem.get(("self", o[f]), OP))

        def byte(k):
            return W([("byte%d" % k, i) for i in range(8)])

        def be(k):
            return po(W(byte(k + 1).b + byte(k).b + (0,) * 16))
        for f, w in (("y", be(3)), ("x", be(5)), ("bits", po(byte(2))), ("components", po(byte(7))),
                     ("ix", padd(atom("ix"), be(0)))):
            self.done += 1
            if get(f) != w:
                raise Violation("%s of the frame is not taken from its place, at %s" % (f, self.where(I)))
