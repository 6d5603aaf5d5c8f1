"""liblj92: the decoder's and the encoder's sample loops, and the bits between them."""
from nest import *                                             # noqa: F401,F403
from nest import F, N, Dt, Pt, Cd, UN, OLD, T, atom, Violation, Infeasible, fadd, fc, fv, fsc, tadd, tscale, trange, \
    u16, s16, mod16, tcond, tmap, Nest, State, module, layout
from llir import AnalysisError
import nest

OFF = {}


def off(struct, *fields):
    k = (struct, fields)
    if k not in OFF:
        OFF[k] = layout(struct, fields)
    return OFF[k]


class Samples(Nest):
    """positions, row cache and prediction, shared by both directions"""

    def starts(self, lin):
        out = []
        base = State()
        base.names = list(self.ghosts)
        n = len(self.ghosts)
        base.space = nest.Space([0] * n, [[F(int(i == j)) for j in range(n)] for i in range(n)])
        base.G = {g: fv(g) for g in self.ghosts if g != "xy"}
        for m in range(8):
            s = base.copy()
            s.tags = {"C": 0, "R": 0, "K": 0, "a": 0, "J": int(self.many), "U": m & 1, "V": m >> 1 & 1, "b": m >> 2}
            self.meet(s, fv("S"))
            self.settle(s)
            self.entry(s, lin)
            out.append(s)
        return out

    # ---- the row cache
    def half(self, st, this):
        """byte offset of this row's (or the row before's) half"""
        odd = st.tags["R"] == 1
        if not this:
            odd = not odd
        return fsc(self.g(st, "X"), F(2)) if odd != st.even else fc(0)

    def cell(self, st, form):
        """the sample a cell of the row cache holds: (dr, dc, dk) or None"""
        if st.even is None:
            return None
        idx = fsc(self.g(st, "I"), F(2))
        n2 = fsc(self.g(st, "n"), F(2))
        d = fadd(fadd(form, self.half(st, True), -1), idx, -1)
        if self.zero(st, d):
            return (0, 0, 0)
        if st.tags["C"] and self.zero(st, fadd(d, n2)):
            return (0, -1, 0)
        if st.tags["K"] and self.zero(st, fadd(d, fc(2))):
            return (0, 0, -1)
        if st.tags["R"]:
            d = fadd(fadd(form, self.half(st, False), -1), idx, -1)
            if self.zero(st, d):
                return (-1, 0, 0)
            if st.tags["C"] and self.zero(st, fadd(d, n2)):
                return (-1, -1, 0)
            if st.tags["U"] and self.zero(st, fadd(d, n2, -1)):
                return (-1, 1, 0)
        return None

    def readrow(self, st, p, n, I):
        if n != 2 or p.t[1]:
            return UN
        c = self.cell(st, fadd(p.f, fc(p.t[0])))
        if c is None or c == (0, 0, 0) and "row" not in st.flags:
            return Dt(atom("?", "row cache at %s" % self.where(I)))
        return Dt(atom("S", *c))

    def here(self, st):
        t = st.tags
        return "%s row, %s column%s" % ({0: "the first", 1: "a later", 2: "a later"}[t["R"]],
                                        "a later" if t["C"] else "the first",
                                        ", %s component" % ("a later" if t["K"] else "the first") if self.many else "")

    def writerow(self, st, p, v, n, I):
        form = fadd(p.f, fc(p.t[0]))
        if n != 2 or p.t[1]:
            self.unclear(st, "row cache written at an unknown place at %s" % self.where(I))
        if st.even is None and not st.tags["R"]:
            d = fadd(form, fsc(self.g(st, "I"), F(2)), -1)
            if self.zero(st, d):
                st.even = False
            elif self.zero(st, fadd(d, fsc(self.g(st, "X"), F(2)), -1)):
                st.even = True
        if self.cell(st, form) != (0, 0, 0):
            raise Violation("row cache written away from the current sample's place at %s (%s)"
                            % (self.where(I), self.here(st)))

    def expected(self, st, pred):
        """the prediction of the current sample"""
        t = st.tags
        a, b, c = atom("S", 0, -1, 0), atom("S", -1, 0, 0), atom("S", -1, -1, 0)
        if not t["R"]:
            return a if t["C"] else atom("shl1", tadd(atom("bits"), T(-1)))
        if not t["C"]:
            return b
        return {1: a, 2: b, 3: c, 4: tadd(tadd(a, b), c, -1),
                5: tadd(a, atom("ashr", tadd(b, c, -1), 1)),
                6: tadd(b, atom("ashr", tadd(a, c, -1), 1)),
                7: atom("ashr", tadd(a, b), 1)}[pred]

    def tile(self, st, p):
        """p is the current sample's place in the tile"""
        d = fadd(fadd(fadd(p.f, fc(p.t[0])), fsc(self.g(st, "N"), F(2)), -1), fsc(self.g(st, "S"), F(2)), -1)
        return not p.t[1] and self.zero(st, d)


class Decoder(Samples):
    """lj92_decode from its entry to its returns, for one predictor"""
    FIELDS = ("data", "datalen", "scanstart", "ix", "x", "y", "bits", "components", "cnt", "b", "rowcache", "outrow")

    def __init__(self, pred, many, lin):
        Samples.__init__(self, module(("nextdiff",)), "lj92_decode", many)
        self.o = off("ljp", *self.FIELDS)
        self.pred, self.lin = pred, lin

    def entry(self, st, lin):
        o = self.o
        c = st.cells

        def put(f, v, d=0):
            c[("self", o[f] + d)] = v
        put("data", Pt("data", fc(0)))
        put("datalen", Dt(atom("datalen")))
        put("scanstart", Dt(atom("scanstart")))
        put("x", N(self.g(st, "x")))
        put("y", N(self.g(st, "y")))
        put("components", N(self.g(st, "n")))
        put("bits", Dt(atom("bits")))
        put("rowcache", Pt("rows", fc(0)))
        put("outrow", Pt("rows", fc(0)))
        put("outrow", Pt("rows", fsc(self.g(st, "X"), F(2))), 8)
        args = [Pt("self", fc(0)), Pt("image", fc(0)), N(self.g(st, "w")), N(fv("skip")),
                Pt("lin" if lin else None, fc(0)), Dt(atom("linlen"))]
        for p, a in zip(self.f.params, args):
            st.env[p[1]] = a

    def sample(self, st):
        return u16(tadd(self.expected(st, self.pred), atom("D")))

    def overrun(self):
        return tcond("gt", tadd(tadd(atom("ix"), atom("ashr", atom("cnt"), 3), -1), atom("datalen"), -1))

    def read(self, st, p, n, I):
        if p.obj == "data":
            c = self.constant(st, p.f)
            if n != 1 or c is None:
                return UN
            t = tadd(p.t, T(int(c)))
            ss = atom("scanstart")
            if t == tadd(tadd(ss, T(3)), atom("byte", tadd(ss, T(2))), 2):
                return N(fc(self.pred))
            return Dt(atom("byte", t))
        if p.obj == "rows":
            return self.readrow(st, p, n, I)
        if p.obj == "lin":
            q = self.halfterm(st, p)
            if n != 2 or q is None:
                return UN
            c = tcond("ge", tadd(q, atom("linlen"), -1))
            if not (c[0] == "t" and st.known.get(c[1]) == (not c[2])):
                raise Violation("the table is read at %s without knowing that it has the entry" % self.where(I))
            return Dt(atom("L", q))
        return None

    def halfterm(self, st, p):
        if self.constant(st, p.f) != 0 or p.t[0] % 2 or any(k % 2 for _, k in p.t[1]):
            return None
        return (p.t[0] // 2, tuple((a, k // 2) for a, k in p.t[1]))

    def write(self, st, p, v, n, I):
        if p.obj == "rows":
            self.writerow(st, p, v, n, I)
            if "D" not in st.flags:
                raise Violation("a sample is stored before its difference is read at %s" % self.where(I))
            self.value(st, v, self.sample(st), "the row cache gets", I)
            st.flags |= {"row"}
        elif p.obj == "image":
            if "D" not in st.flags:
                raise Violation("a sample is written before its difference is read at %s" % self.where(I))
            if n != 2 or not self.tile(st, p):
                raise Violation("a sample is written away from its place in the tile at %s (%s%s)" % (
                    self.where(I), self.here(st), ", after the end of a tile row" if not st.tags["b"] else ""))
            e = self.sample(st)
            self.value(st, v, atom("L", e) if self.lin else e, "the image gets", I)
            st.flags |= {"out"}
        else:
            return None
        self.obl += 1
        if {"D", "row", "out"} <= st.flags:
            self.replace(st, self.sample(st), atom("S", 0, 0, 0))
            return self.move(st)
        return [st]

    def headless(self, st):
        """is it known that the data ends inside the scan's header: two bytes of length, the count, two bytes for
        every component, three bytes"""
        ss = atom("scanstart")
        n = atom("byte", tadd(ss, T(2)))
        for k, v in st.known.items():
            if k[0] != "ge":
                continue
            t = k[1] if v else tadd(tscale(k[1], -1), T(-1))
            r = dict(tadd(tadd(t, ss, -1), atom("datalen"))[1])
            m = r.pop(n[1][0][0], 0)
            if not r and all(t[0] + m * b <= 5 + 2 * b for b in range(1, 256)):
                return True
        return False

    def value(self, st, v, want, what, I):
        t = self.term(st, v)
        if t is None and v is not OLD:
            self.unclear(st, "%s an unknown value at %s" % (what, self.where(I)))
        if t is None or t != want and not (mod16(t) == mod16(want)):
            raise Violation("predictor %d, %s: %s %s instead of %s at %s" % (
                self.pred, self.here(st), what, "an unknown value" if t is None else show(t), show(want),
                self.where(I)))

    def call(self, st, name, args, I):
        if name != "nextdiff":
            raise AnalysisError("call of %s at %s" % (name, self.where(I)))
        o = self.o
        if "end" in st.flags:
            raise Violation("a difference is read after the last sample at %s" % self.where(I))
        if st.flags:
            raise Violation("a difference is read before the sample before it was stored, at %s (%s)"
                            % (self.where(I), self.here(st)))
        if not (st.tags["R"] or st.tags["C"] or st.tags["K"]):
            ss = atom("scanstart")
            want = {"ix": tadd(tadd(ss, atom("byte", ss), 256), atom("byte", tadd(ss, T(1)))), "cnt": T(0),
                    "b": T(0)}
            for f, w in want.items():
                t = self.term(st, st.cells.get(("self", o[f]), UN))
                self.obl += 1
                if t != w:
                    raise Violation("at the first difference %s is %s instead of %s" % (
                        f, "unknown" if t is None else show(t), show(w)))
        def f(a):
            return None if a[0] in ("ix", "cnt", "D") else T(0, (a, 1))

        def val(v):
            if isinstance(v, Dt):
                t = tmap(v.t, f)
                return UN if t is None else v
            if isinstance(v, Cd) and v.c and v.c[0] in ("t", "and", "or"):
                return Cd(None)
            return v
        st.env = {k: val(v) for k, v in st.env.items()}
        st.known = {k: v for k, v in st.known.items() if tmap(k[1], f) is not None}
        st.cells[("self", o["ix"])] = Dt(atom("ix"))
        st.cells[("self", o["cnt"])] = Dt(atom("cnt"))
        st.cells[("self", o["b"])] = UN
        st.flags = frozenset(["D"])
        self.obl += 1
        return Dt(atom("D")), None

    def shift(self, st, d):
        # what is known of the decoder's position stays known
        keep = {k: v for k, v in st.known.items() if all(a[0] in ("ix", "cnt", "datalen", "ashr")
                                                         for a in nest.atoms(k[1]))}
        Samples.shift(self, st, d)
        st.known.update(keep)

    def ret(self, st, v, I):
        t = self.term(st, v)
        c = self.overrun()
        over = st.known.get(c[1]) if c[0] == "t" else None
        over = None if over is None else over == c[2]
        self.obl += 1
        if t is None or t[1]:
            raise AnalysisError("result at %s" % self.where(I))
        if t[0] == 0:
            if "end" not in st.flags:
                raise Violation("success is returned before the last sample is stored, at %s" % self.where(I))
            if over is not False:
                raise Violation("success is returned without knowing that the data sufficed, at %s" % self.where(I))
        elif t[0] == -1:
            if over or self.headless(st):
                return
            if "D" in st.flags:
                k = tcond("ge", tadd(self.sample(st), atom("linlen"), -1))
                if self.lin and k[0] == "t" and st.known.get(k[1]) == k[2]:
                    return
            raise Violation("a valid scan is rejected at %s (%s)" % (self.where(I), self.here(st)))
        else:
            raise Violation("unexpected result %d at %s" % (t[0], self.where(I)))


NAMES = {(0, -1, 0): "left", (-1, 0, 0): "above", (-1, -1, 0): "above left", (0, 0, 0): "the sample"}


def show(t):
    def a(x):
        if x[0] == "S":
            return NAMES.get(x[1:], "S%r" % (x[1:],))
        if x[0] == "D":
            return "difference"
        if x[0] in ("ashr",):
            return "(%s)>>%d" % (show(x[1]), x[2])
        if x[0] == "shl1":
            return "1<<(%s)" % show(x[1])
        if x[0] in ("u16", "s16", "L", "nbits", "byte", "abs"):
            return "%s(%s)" % (x[0], show(x[1]))
        if x[0] == "?":
            return "?"
        return str(x[0]) if len(x) == 1 else repr(x)
    out = []
    for x, k in t[1]:
        out.append((a(x) if k == 1 else "-" + a(x) if k in (-1, 65535) else "%d*%s" % (k, a(x))))
    if t[0] or not out:
        out.append(str(t[0]))
    return " + ".join(out).replace("+ -", "- ")


class Encoder(Samples):
    """frequencyScan or writeBody: every sample of the tile is predicted once, in order, and its class used"""
    FIELDS = ("image", "width", "height", "bitdepth", "readLength", "skipLength", "delinearize",
              "delinearizeLength", "encoded", "encodedWritten", "encodedLength", "hist", "bits", "huffval",
              "huffenc", "huffbits", "huffsym")

    def __init__(self, fname, lin):
        Samples.__init__(self, module(("nextdiff",)), fname, 0)
        self.o = off("lje", *self.FIELDS)
        self.first = fname == "frequencyScan"
        self.lin = lin
        self.on_class = None
        self.opaque = not self.first                           # the bit loops are not followed here

    def entry(self, st, lin):
        o, c = self.o, st.cells
        for f, v in (("image", Pt("image", fc(0))), ("width", N(self.g(st, "x"))), ("height", N(self.g(st, "y"))),
                     ("bitdepth", Dt(atom("bits"))), ("readLength", N(self.g(st, "w"))),
                     ("skipLength", N(fv("skip"))), ("delinearize", Pt("lin" if lin else None, fc(0))),
                     ("delinearizeLength", Dt(atom("linlen"))), ("encoded", Pt("out", fc(0))),
                     ("encodedWritten", Dt(atom("written"))), ("encodedLength", Dt(atom("length")))):
            c[("self", o[f])] = v
        st.env[self.f.params[0][1]] = Pt("self", fc(0))

    def region(self, p):
        """(table, index term) of an access of a table in the encoder's state"""
        c = p.t
        k = self.o
        for f, n, w in (("hist", 18, 4), ("huffsym", 18, 4), ("huffenc", 18, 2), ("huffbits", 18, 2),
                        ("bits", 18, 4), ("huffval", 18, 4)):
            d = c[0] - k[f]
            if not (0 <= d < n * w or c[1] and abs(d) < n * w and d <= 0):
                continue
            if d % w or any(q % w for _, q in c[1]):
                continue
            if 0 <= d < n * w:
                return f, (d // w, tuple((a, q // w) for a, q in c[1]))
        return None

    def offset(self, st, p):
        c = self.constant(st, p.f)
        return None if c is None else Pt(p.obj, fc(0), tadd(p.t, T(int(c))))

    def read(self, st, p, n, I):
        if p.obj == "image":
            if n == 2 and "end" not in st.flags and self.tile(st, p):
                return Dt(atom("P"))
            if "end" in st.flags:
                raise Violation("a sample after the last is read at %s" % self.where(I))
            raise Violation("a sample is read away from its place in the tile at %s (%s%s)" % (
                self.where(I), self.here(st), ", near the end of a tile row" if not st.tags["b"] else ""))
        if p.obj == "rows":
            return self.readrow(st, p, n, I)
        if p.obj == "lin":
            q = Decoder.halfterm(self, st, p)
            if n != 2 or q is None:
                return UN
            if self.first:
                c = tcond("ge", tadd(q, atom("linlen"), -1))
                if not (c[0] == "t" and st.known.get(c[1]) == (not c[2])):
                    raise Violation("the table is read at %s without knowing that it has the entry" % self.where(I))
            return Dt(atom("L", q))
        if p.obj == "self":
            q = self.offset(st, p)
            r = q and self.region(q)
            if r:
                f, i = r
                if f == "huffsym" and not self.first:
                    self.classof(st, i, I, "the code is looked up for")
                    st.flags |= {"use"}
                    self.obl += 1
                return Dt(atom("load", f, 4 if f not in ("huffenc", "huffbits") else 2, i))
        return None

    def diff(self, st):
        return s16(tadd(atom("S", 0, 0, 0), self.expected(st, 6), -1))

    def classof(self, st, i, I, what):
        if "row" not in st.flags:
            raise Violation("the class is used before the sample is stored at %s" % self.where(I))
        e = self.diff(st)
        z = self.holds(st, "eq", e)
        if z is None:
            z = self.holds(st, "eq", atom("abs", e))
        want = [T(0) if z else atom("nbits", atom("abs", e))]
        if z is False:
            if self.holds(st, "ge", e):
                want.append(atom("nbits", e))
            if self.holds(st, "ge", tadd(e, T(-1))) is False or self.holds(st, "ge", e) is False:
                want.append(atom("nbits", tscale(e, -1)))
            k = i[0]
            if not i[1] and 1 <= k <= 16 and self.holds(st, "eq", atom("ashr", atom("abs", e), k)) and (
                    k == 1 or self.holds(st, "eq", atom("ashr", atom("abs", e), k - 1)) is False):
                want.append(i)
        if z is None or i not in want:
            why = "%s, %s: %s class %s instead of the bits of |%s|, at %s" % (
                self.f.name, self.here(st), what, show(i), show(e), self.where(I))
            if any(a[0] not in ("nbits", "bits") for a, _ in i[1]) or not i[1] and any(
                    a[0] == "ashr" and a[1] == atom("abs", e) for k, _ in st.known.items() for a, _ in k[1][1]):
                self.unclear(st, why)
            raise Violation(why)

    def holds(self, st, p, t):
        c = tcond(p, t)
        if c[0] == "k":
            return c[1]
        z = st.known.get(c[1])
        return None if z is None else z == c[2]

    def inst(self, st, I):
        r = Samples.inst(self, st, I)
        if r is None and "use" in st.flags and "row" in st.flags:
            e = self.diff(st)
            self.stale(st, "E")
            if self.on_class:
                self.on_class(self, st, I, e)
            self.replace(st, e, atom("E"))
            return self.move(st)
        return r

    def stale(self, st, name):
        def f(a):
            return None if a[0] == name else T(0, (a, 1))

        def val(v):
            if isinstance(v, Dt):
                return v if tmap(v.t, f) is not None else UN
            if isinstance(v, Cd) and v.c and v.c[0] in ("t", "and", "or"):
                return Cd(None)
            return v
        st.env = {k: val(v) for k, v in st.env.items()}
        st.known = {k: v for k, v in st.known.items() if tmap(k[1], f) is not None}

    def write(self, st, p, v, n, I):
        if p.obj == "rows":
            self.writerow(st, p, v, n, I)
            want = atom("L", atom("P")) if self.lin else atom("P")
            t = self.term(st, v)
            if t is None and v is not OLD and "end" not in st.flags:
                self.unclear(st, "the row cache gets an unknown value at %s" % self.where(I))
            if "end" in st.flags or t != want:
                raise Violation("%s, %s: the row cache gets %s instead of %s at %s" % (
                    self.f.name, self.here(st), "an unknown value" if t is None else show(t), show(want),
                    self.where(I)))
            self.obl += 1
            self.replace(st, want, atom("S", 0, 0, 0))
            st.flags |= {"row"}
            return [st]
        if p.obj == "self":
            q = self.offset(st, p)
            r = q and self.region(q)
            if r is None and p.t[1]:
                self.unclear(st, "write at an unknown place of the encoder's state at %s" % self.where(I))
            if r and r[0] == "hist" and self.first:
                self.classof(st, r[1], I, "the histogram counts")
                t = self.term(st, v)
                if t != tadd(atom("load", "hist", 4, r[1]), T(1)):
                    raise Violation("the histogram's entry does not become one more at %s" % self.where(I))
                self.obl += 1
                self.stale(st, "E")
                self.replace(st, self.diff(st), atom("E"))
                return self.move(st)
            if r:
                raise Violation("table %s is written at %s" % (r[0], self.where(I)))
            return None
        if p.obj == "out":
            return [st]
        if p.obj == "image" or p.obj == "lin":
            raise Violation("the %s is written at %s" % ("image" if p.obj == "image" else "table", self.where(I)))
        return None

    def call(self, st, name, args, I):
        if name in ("calloc", "malloc"):
            sz = args[0].f if name == "malloc" else self.mul(st, args[0].f, args[1].f) \
                if all(isinstance(a, N) for a in args) else None
            if sz is None or not self.nonneg(st, fadd(sz, fsc(self.g(st, "x"), F(4)), -1)):
                raise Violation("the row cache is smaller than two rows at %s" % self.where(I))
            self.obl += 1
            return Pt("rows", fc(0)), None
        raise AnalysisError("call of %s at %s" % (name, self.where(I)))

    def ret(self, st, v, I):
        t = self.term(st, v)
        self.obl += 1
        if t is None or t[1]:
            raise AnalysisError("result at %s" % self.where(I))
        if t[0] == 0:
            if "end" not in st.flags:
                raise Violation("success is returned before the last sample at %s (%s)" % (
                    self.where(I), self.here(st)))
        elif t[0] == -4 and self.first and self.lin:
            k = tcond("ge", tadd(atom("P"), atom("linlen"), -1))
            if k[0] != "t" or st.known.get(k[1]) != k[2]:
                raise Violation("a sample within the table is rejected at %s" % self.where(I))
        elif t[0] == -5 and not self.first:
            pass                                                # decided with the bits (C26)
        elif t[0] != -2:
            raise Violation("result %d at %s" % (t[0], self.where(I)))


# ---- the decoder's bits
import bitrun                                                  # noqa: E402
from bitrun import W, Sy, Pr, OP, St, Run, sg                  # noqa: E402


class NextDiff(Run):
    """nextdiff for one length of the code table: the difference it returns and what it leaves for the next.

    The string is what the scan still holds: the cnt low bits of b, then the bytes from ix on, each byte after
    an 0xFF left out, zeros after the end of the data."""

    def __init__(self, huffbits):
        Run.__init__(self, module(("nextdiff",)), "nextdiff")
        self.o = off("ljp", "data", "datalen", "ix", "cnt", "b", "hufflut", "huffbits", "sssshist")
        self.hb = huffbits
        self.entries = {}
        self.back = {v: k for k, v in self.o.items()}
        self.done = 0

    # monitor: (base, bytes) : the string so far: tuple of origins consumed up to ..; phase
    def starts(self):
        return [self.start(0)]

    def start(self, cnt):
        st = St()
        st.env[self.f.params[0][1]] = Pr("self")
        o = self.o
        b = [("s", cnt - 1 - i) for i in range(cnt)]
        st.mem = {o["data"]: Pr("data"), o["datalen"]: Sy("len", 0), o["ix"]: Sy("ix", 0), o["cnt"]: cnt,
                  o["b"]: W(b + [0] * (32 - cnt)) if cnt else 0, o["hufflut"]: Pr("lut"), o["huffbits"]: self.hb}
        # string: list of origins (next first); ix of the byte after it; lowest offset known beyond the end,
        # highest known within; phase
        st.mon = (tuple(("s", i) for i in range(cnt)), 0, None, None, None)
        return st

    def explore_all(self):
        todo, seen = [0], {0}
        self.outs = set()
        while todo:
            c = todo.pop()
            st = self.start(c)
            self.outs = set()
            self.drain([(st, self.f.order[0], 0)])
            self.entries[c] = True
            for x in self.outs:
                if x not in seen:
                    if x > 31:
                        raise Violation("more bits are kept than the word has")
                    seen.add(x)
                    todo.append(x)

    def canon(self, st):
        s, nx, beyond, within, ph = st.mon
        m = {a: ("s", i) for i, a in enumerate(s) if a not in (0, 1)}

        def f(a):
            if a in m:
                return m[a]
            if a[0] == "B":
                return ("B", a[1] - nx, a[2])
            return ("old",) + a if a[0] != "old" else a
        beyond2 = None if beyond is None else max(0, beyond - nx)
        within2 = None if within is None or within < nx else within - nx
        return f, (tuple(a if a in (0, 1) else "s" for a in s), beyond2, within2, ph)

    def resym(self, st, v):
        return Sy(v.s, v.k - st.mon[1]) if v.s == "ix" else v

    def watched(self, st):
        nx = st.mon[1]
        return set(st.mon[0]) | {a for a in st.facts if a[0] == "B" and a[1] >= nx} | \
            {a for c in st.negs for a, _ in c if a[0] == "B" and a[1] >= nx}

    def renamed(self, st, ren):
        s, nx, beyond, within, ph = st.mon
        st.mon = (tuple(a if a in (0, 1) else ("s", i) for i, a in enumerate(s)), 0, None if beyond is None else max(0, beyond - nx),
                  None if within is None or within < nx else within - nx, ph)

    def symcmp(self, st, p, a, b):
        if (a.s, b.s) == ("len", "ix"):
            a, b = b, a
            p = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(p, p)
        if (a.s, b.s) != ("ix", "len") or p not in ("lt", "le", "ge", "gt"):
            return None
        k = a.k - b.k                                          # ix + k < len
        if p in ("le", "gt"):
            k -= 1
        return ("in", k, p in ("lt", "le"))

    def inside(self, st, k):
        s, nx, beyond, within, ph = st.mon
        if within is not None and k <= within:
            return True
        if beyond is not None and k >= beyond:
            return False
        return None

    def sym(self, st, c):
        _, k, pol = c
        r = self.inside(st, k)
        if r is not None:
            return [(st, r == pol)]
        o = st.copy()
        s, nx, beyond, within, ph = st.mon
        st.mon = (s, nx, beyond, k, ph)
        o.mon = (s, nx, k, within, ph)
        return [(st, pol), (o, not pol)]

    def bytesof(self, st, k):
        """origins of the byte at ix + k, first bit first"""
        r = self.inside(st, k)
        if r is False:
            return (0,) * 8
        return tuple(("B", k, 7 - i) for i in range(8))

    def extend(self, st, n):
        """the string, at least n bits long: [states]"""
        out, todo = [], [st]
        while todo:
            st = todo.pop()
            s, nx, beyond, within, ph = st.mon
            if len(s) >= n:
                out.append(st)
                continue
            r = self.inside(st, nx)
            if r is None:
                for q, _ in self.sym(st, ("in", nx, True)):
                    todo.append(q)
                continue
            b = tuple(st.facts.get(a, a) if a not in (0, 1) else a for a in self.bytesof(st, nx))
            lits = tuple(sorted((((a, 1)) for a in b if a not in (0, 1)), key=repr))
            if 0 in b:
                ff = [(st, False)]
            elif not lits:
                ff = [(st, True)]
            else:
                ff = self.truth(st, ("and", lits, True))
            for q, v in ff:
                b2 = tuple(q.facts.get(a, a) if a not in (0, 1) else a for a in b)
                q.mon = (q.mon[0] + b2, nx + (2 if v else 1)) + q.mon[2:]
                todo.append(q)
        return out

    def load(self, st, I, p, n):
        if not isinstance(p, Pr):
            st.env[I.res] = OP
            return None
        if p.o == "self" and p.w is None and isinstance(p.k, int):
            st.env[I.res] = st.mem.get(p.k, OP)
            return None
        if p.o == "data":
            if n != 1 or not isinstance(p.k, Sy) or p.k.s != "ix":
                raise Violation("the data are read other than byte by byte from the position on, at %s"
                                % self.where(I))
            if self.inside(st, p.k.k) is not True:
                raise Violation("the data are read without knowing that the position is inside them, at %s"
                                % self.where(I))
            self.done += 1
            st.env[I.res] = self.simp(st, W([("B", p.k.k, i) for i in range(8)]))
            return None
        if p.o == "lut":
            if n != 2 or p.sc not in (0, 2) or p.k not in (0,) and p.w is not None:
                raise Violation("the code table is read at an unknown place at %s" % self.where(I))
            if p.w is None and not isinstance(p.k, int):
                raise Violation("the code table is not read at the scan's next %d bits, at %s" % (self.hb, self.where(I)))
            ix = p.w if p.w is not None else p.k // 2
            out = []
            for s in self.extend(st, self.hb):
                want = W([s.facts.get(a, a) if a not in (0, 1) else a for a in reversed(s.mon[0][:self.hb])])
                w = self.word(ix, 64)
                got = None if w is None or w.k or any(w.b[self.hb:]) else \
                    W([s.facts.get(a, a) if a not in (0, 1) else a for a in w.b[:self.hb]])
                if got != want:
                    raise Violation("the code table of %d bits is not looked up with the scan's next %d bits, at %s"
                                    % (self.hb, self.hb, self.where(I)))
                self.done += 1
                if s.mon[4] is not None:
                    raise Violation("two codes are looked up for one difference at %s" % self.where(I))
                for used in range(1, self.hb + 1):
                    for t in range(17):
                        q = s.copy()
                        q.mon = (s.mon[0][used:],) + s.mon[1:4] + (t,)
                        q.env[I.res] = t << 8 | used
                        out.append(q)
            return out
        st.env[I.res] = OP
        return None

    def store(self, st, I, p, v, n):
        if not isinstance(p, Pr) or p.o != "self" or p.w is not None or not isinstance(p.k, int):
            raise Violation("write at an unknown place at %s" % self.where(I))
        h = self.o["sssshist"]
        if h <= p.k < self.o["sizeof"] and self.inhist(p.k):
            return None
        if self.back.get(p.k) not in ("ix", "cnt", "b"):
            raise Violation("write of another field of the decoder at %s" % self.where(I))
        st.mem[p.k] = v
        return None

    def inhist(self, k):
        h = self.o["sssshist"]
        nxt = min([x for x in self.o.values() if x > h])
        return h <= k < nxt

    def ret(self, st, v, I):
        t = st.mon[4]
        if t is None:
            raise Violation("a difference is returned without a code being looked up, at %s" % self.where(I))
        n = t if t < 16 else 0
        cond = "code table of %d bits, class %d" % (self.hb, t)
        for s in self.extend(st, n):
            bits = s.mon[0][:n]
            rest = s.mon[0][n:]
            self.done += 1
            s.mon = (rest,) + s.mon[1:]
            if t == 0 or t == 16:
                want = {0: 0, 16: 32768}[t]
                if v != want:
                    raise Violation("%s: the difference is not %d, at %s" % (cond, want, self.where(I)))
            else:
                for q, pos in (self.truth(s.copy(), ("and", ((bits[0], 1),), True)) if bits[0] not in (0, 1)
                               else [(s, bool(bits[0]))]):
                    bb = [q.facts.get(a, a) if a not in (0, 1) else a for a in reversed(bits)]
                    w = W(bb + [0] * (32 - n), 0 if pos else 1 - (1 << n))
                    x = self.word(v, 32)
                    x = None if x is None else W([q.facts.get(a, a) if a not in (0, 1) else a for a in x.b], x.k)
                    if x is None or not (x == w or x.const() is not None and x.const() == w.const()):
                        raise Violation("%s: the difference is not the value of the next %d bits (%s), at %s" % (
                            cond, n, "leading one" if pos else "leading zero", self.where(I)))
            # what is left
            cnt = s.mem.get(self.o["cnt"])
            ix = s.mem.get(self.o["ix"])
            b = self.word(s.mem.get(self.o["b"]), 32)
            if not isinstance(cnt, int) or cnt > 64:
                raise Violation("%s: the number of bits kept is unknown, at %s" % (cond, self.where(I)))
            for q in self.extend(s, cnt):
                st2 = q.mon
                want = [q.facts.get(a, a) if a not in (0, 1) else a for a in reversed(st2[0])]
                got = None if b is None or b.k else [q.facts.get(a, a) if a not in (0, 1) else a for a in b.b]
                if len(st2[0]) != cnt or got is None or got != want + [0] * (32 - cnt) or ix != Sy("ix", st2[1]):
                    raise Violation("%s: the bits kept and the position do not continue the scan, at %s (bits kept: "
                                    "%d)" % (cond, self.where(I), cnt))
            self.outs.add(cnt)


# ---- the encoder's bits
class Emit(Run):
    """writeBody from one class lookup to the next: the bytes written are the codes and the values' bits in order.

    The string is what is still to be written: the rest of the sample's before and, from the lookup on, the code of
    the class (h bits) and the class's value bits.  `seeds` are the registers that hold the difference and its
    class at the lookup (found by the analysis of the samples)."""

    def __init__(self, seeds):
        Run.__init__(self, module(("nextdiff",)), "writeBody")
        self.o = off("lje", *Encoder.FIELDS)
        self.seeds = seeds                                     # {lookup: {register: ("E", c) or ("class",)}}
        self.back = {v: k for k, v in self.o.items()}
        self.done = self.bytes = 0
        self.opaque = True
        self.lengths = range(1, 17)
        self.lookups = set()
        self.after = {}
        self.slice()

    def slice(self):
        """registers that must be followed: what the bytes, their places and the inner loops' conditions are
        computed from, as far as the lookups"""
        f = self.f
        preds = {b: [] for b in f.order}
        succ = {}
        for b in f.order:
            t = f.blocks[b][-1]
            succ[b] = list(t.args) if t.op == "br" else \
                [t.args[0]] + [x for _, x in t.args[1]] if t.op == "switch" else []
            for s in succ[b]:
                preds[s].append(b)
        dom = {b: set(f.order) for b in f.order}
        dom[f.order[0]] = {f.order[0]}
        ch = True
        while ch:
            ch = False
            for b in f.order[1:]:
                n = set.intersection(*[dom[p] for p in preds[b]]) | {b} if preds[b] else {b}
                if n != dom[b]:
                    dom[b], ch = n, True
        depth = {b: set() for b in f.order}
        for b in f.order:
            for h in succ[b]:
                if h in dom[b]:
                    body, todo = {h, b}, [b]
                    while todo:
                        x = todo.pop()
                        if x == h:
                            continue
                        for p in preds[x]:
                            if p not in body:
                                body.add(p)
                                todo.append(p)
                    for x in body:
                        depth[x].add(h)
        cut = {r for s in self.seeds.values() for r in s}
        defs, todo = {}, []
        ptr = {}
        for b in f.order:
            for I in f.blocks[b]:
                if I.res:
                    defs[I.res] = I

        def roots(v, seen):
            """where a pointer comes from"""
            if v[0] != "reg" or v[1] in seen:
                return set()
            seen.add(v[1])
            I = defs.get(v[1])
            if I is None:
                return {("param", v[1])}
            if I.op == "getelementptr":
                return roots(I.args[0][1], seen)
            if I.op == "phi":
                return set().union(*[roots(x, seen) for x, _ in I.args])
            if I.op == "select":
                return roots(I.args[1], seen) | roots(I.args[2], seen)
            return {(I.op, v[1])}
        for b in f.order:
            for I in f.blocks[b]:
                if I.op == "store":
                    p = I.args[1]
                    r = roots(p, set())
                    n = self.Ty.size(I.ty)
                    rows = r and all(x[0] == "call" for x in r) or n == 2
                    if not rows:
                        todo += [I.args[0], p]
                elif I.op in ("br", "switch") and len(depth[b]) >= 2 and I.x is not None and (
                        I.op == "switch" or len(I.args) == 2):
                    todo.append(I.x)
        keep = set()

        def regs(v, out):
            if isinstance(v, tuple):
                if v and v[0] == "reg":
                    out.append(v)
                else:
                    for x in v:
                        regs(x, out)
            elif isinstance(v, list):
                for x in v:
                    regs(x, out)
        while todo:
            v = todo.pop()
            if v[0] != "reg" or v[1] in keep:
                continue
            keep.add(v[1])
            if v[1] in cut or v[1] not in defs or defs[v[1]].op == "load":
                continue
            regs(defs[v[1]].args, todo)
        self.keep = keep | cut

    def explore_all(self):
        st = St()
        o = self.o
        st.env[self.f.params[0][1]] = Pr("self")
        st.mem = {o["encoded"]: Pr("out"), o["encodedWritten"]: Sy("w", 0), o["encodedLength"]: Sy("len", 0),
                  o["image"]: Pr("image", "?"), o["delinearize"]: Pr("lin", "?")}
        # rest to write; next place; byte before it (bits) or None; least room behind the place; whether it is known
        # to be short; class looked up and length of its code; the padded byte is written
        st.mon = ((), 0, None, 6, False, None, False)
        self.explore([st])

    # ---- canonical states
    def canon(self, st):
        s, pos, last, room, tight, cl, fin = st.mon
        m = {}
        for i, a in enumerate(s):
            if a not in (0, 1):
                m.setdefault(a, ("s", i))
        for i, a in enumerate(last or ()):
            if a not in (0, 1):
                m.setdefault(a, ("l", i))

        def f(a):
            return m.get(a) or (("old",) + a if a[0] != "old" else a)
        return f, (tuple(f(a) if a not in (0, 1) else a for a in s),
                   None if last is None else tuple(f(a) if a not in (0, 1) else a for a in last), room, tight, cl, fin)

    def forget(self, st):
        """what is not followed is not kept apart"""
        for k, v in st.env.items():
            if k not in self.keep and not isinstance(v, Pr) and v != Sy("code", 0):
                st.env[k] = OP
        last = st.mon[2]
        if last is not None:
            b = self.bitsof(st, last)
            if 0 in b or tuple(sorted({(a, 1) for a in b if a != 1}, key=repr)) in st.negs:
                st.mon = st.mon[:2] + (None,) + st.mon[3:]

    def resym(self, st, v):
        if v.s == "w":
            return Sy(v.s, v.k - st.mon[1]) if st.mon[1] - v.k < 4 else OP
        return v

    def watched(self, st):
        return {a for a in st.mon[0] + (st.mon[2] or ()) if a not in (0, 1)}

    def renamed(self, st, ren):
        s, pos, last, room, tight, cl, fin = st.mon
        st.mon = (tuple(ren(a) if a not in (0, 1) else a for a in s), 0,
                  None if last is None else tuple(ren(a) if a not in (0, 1) else a for a in last), room, tight, cl, fin)

    def simp(self, st, w):
        """a bit keeps its origin when its value is known"""
        c = w.const()
        return w if c is None else c

    def known(self, st, w):
        return W(self.bitsof(st, w.b), w.k)

    # ---- places
    LEAST = {"w": 4, "len": 8}                                 # behind the header

    def symcmp(self, st, p, a, b):
        if (a.s, b.s) == ("len", "w"):
            a, b = b, a
            p = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(p, p)
        if (a.s, b.s) != ("w", "len") or p not in ("lt", "le", "ge", "gt"):
            return None
        k = a.k - b.k                                          # w + k < len
        if p in ("le", "gt"):
            k -= 1
        return ("in", k, p in ("lt", "le"))

    def sym(self, st, c):
        _, k, pol = c
        s, pos, last, room, tight, cl, fin = st.mon
        need = k - pos + 1                                     # pos + need <= len
        if need <= room:
            return [(st, pol)]
        o = st.copy()
        st.mon = (s, pos, last, min(need, 8), tight, cl, fin)
        o.mon = (s, pos, last, room, need <= 16, cl, fin)
        return [(st, pol), (o, not pol)]

    def bitsof(self, st, bits):
        return tuple(st.facts.get(a, a) if a not in (0, 1) else a for a in bits)

    def stuffed(self, st):
        """the states with it known whether the byte before was 0xFF: [(state, was)]"""
        last = st.mon[2]
        if last is None:
            return [(st, False)]
        b = self.bitsof(st, last)
        if 0 in b:
            return [(st, False)]
        lits = tuple(sorted({(a, 1) for a in b if a != 1}, key=repr))
        return self.truth(st, ("and", lits, True)) if lits else [(st, True)]

    def settled(self, st, I):
        """the byte before needs nothing after it"""
        out = []
        for q, ff in self.stuffed(st):
            if ff:
                raise Violation("0xFF is written without a zero byte after it (seen at %s)" % self.where(I))
            q.mon = q.mon[:2] + (None,) + q.mon[3:]
            out.append(q)
        return out

    # ---- accesses
    def gep(self, st, ty, vs):
        p = vs[0]
        if not isinstance(p, Pr):
            return OP
        if p.o not in ("self", "out"):
            return Pr(p.o, "?")
        v = vs[-1]
        if p.o == "self" and (isinstance(v, Sy) and v.s == "code" or v is OP):
            return self.table(st, ty, p, vs)
        return Run.gep(self, st, ty, vs)

    def table(self, st, ty, p, vs):
        """an element of one of the tables"""
        if len(vs) == 2 and p.w is None:
            return Pr("self", p.k, vs[-1], self.Ty.size(ty))
        q = Run.gep(self, st, ty, vs[:-1] + [0])
        return Pr("self", q.k, vs[-1], 0) if isinstance(q, Pr) and isinstance(q.k, int) and q.w is None else OP

    def load(self, st, I, p, n):
        st.env[I.res] = OP
        if not isinstance(p, Pr) or p.o != "self" or not isinstance(p.k, int):
            if isinstance(p, Pr) and p.o == "out":
                raise Violation("the bytes written are read back at %s" % self.where(I))
            return None
        name = self.field(p.k)
        if name == "huffsym":
            return self.lookup(st, I)
        if p.w is None:
            st.env[I.res] = st.mem.get(p.k, OP)
            return None
        if name in ("huffenc", "huffbits"):
            if p.w != Sy("code", 0):
                raise Violation("the code is not the one looked up for the class, at %s" % self.where(I))
            out = []
            for q in self.withcode(st, I):
                s, cl = q.mon[0], q.mon[5]
                if name == "huffbits":
                    q.env[I.res] = cl[1]
                else:
                    c = [("c", cl[1] - 1 - i) for i in range(cl[1])]
                    q.env[I.res] = W(c + [0] * (16 - cl[1])) if n == 2 else OP
                out.append(q)
            return out
        return None

    def field(self, k):
        best = max((v for v in self.o.values() if v <= k), default=None)
        return self.back.get(best)

    def withcode(self, st, I):
        cl = st.mon[5]
        if cl is None:
            raise Violation("a code is used without a class being looked up, at %s" % self.where(I))
        if cl[1] is not None:
            return [st]
        out = []
        for h in range(1, 17):
            if h not in self.lengths and len(st.mon[0]) + h > 7:
                continue                                       # no byte is full: followed for every length
            q = st.copy()
            s, pos, last, room, tight, _, fin = q.mon
            cut = len(s) - cl[2]
            q.mon = (s[:cut] + tuple(("c", i) for i in range(h)) + s[cut:], pos, last, room, tight,
                     (cl[0], h, cl[2]), fin)
            out.append(q)
        return out

    def lookup(self, st, I):
        seeds = self.seeds.get((I.block, I.res))
        if seeds is None:
            return None
        out = []
        for st in self.settled(st, I):
            s, pos, last, room, tight, cl, fin = st.mon
            self.done += 1
            if fin:
                raise Violation("a sample is coded after the last byte was padded, at %s" % self.where(I))
            if len(s) > 7:
                raise Violation("%d bits of the codes are not written when the next sample is coded, at %s (class %s, "
                                "code of %s bits)" % (len(s), self.where(I), cl and cl[0], cl and cl[1]))
            st.facts, st.negs, room = {}, (), min(room, 4)
            wk = self.o["encodedWritten"]
            if st.mem.get(wk) != Sy("w", pos):
                st.mem[wk] = OP
            self.lookups.add(self.digest(st, I))
            for c in range(17):
                for positive in ((True, False) if 0 < c < 16 else (True,)):
                    q = st.copy()
                    n = c if c < 16 else 0
                    v = tuple(("v", i) for i in range(n))
                    if n:
                        q.facts[("v", 0)] = int(positive)
                    q.mon = (s + v, pos, last, room, tight, (c, None, n), fin)
                    if c == 0:
                        w = 0
                    elif c == 16:
                        w = -32768
                    else:
                        w = W(tuple(reversed(v)) + (0,) * (32 - n), 0 if positive else 1 - (1 << n))
                    for r, kind in seeds.items():
                        if kind[0] == "class":
                            q.env[r] = c
                        elif isinstance(w, int):
                            q.env[r] = (w + kind[1]) & 0xffffffff
                        else:
                            q.env[r] = W(w.b, w.k + kind[1])
                    q.env[I.res] = Sy("code", 0)
                    out.append(q)
        return out

    def digest(self, st, I):
        """what the rest of the function sees of the state at a lookup"""
        k = (I.block, I.res)
        if k not in self.after:
            ins = self.f.blocks[I.block]
            live = set()

            def regs(v):
                if isinstance(v, tuple):
                    if v and v[0] == "reg":
                        live.add(v[1])
                    else:
                        for x in v:
                            regs(x)
                elif isinstance(v, list):
                    for x in v:
                        regs(x)
            t = ins[-1]
            for s in (list(t.args) if t.op == "br" else [t.args[0]] + [x for _, x in t.args[1]]):
                live |= self.live[s]
                for J in self.f.blocks[s]:
                    if J.op == "phi":
                        regs([v for v, b in J.args if b == I.block])
            for J in reversed(ins):
                if J is I:
                    break
                live.discard(J.res)
                regs(J.args if J.op not in ("br", "switch") else ())
                regs(J.x)
            self.after[k] = live - set(self.seeds[k])
        q = st.copy()
        q.mon = q.mon[:3] + (min(q.mon[3], 4), q.mon[4], None) + q.mon[6:]
        q.env = {r: v for r, v in q.env.items() if r in self.after[k]}
        self.forget(q)
        q.mem = dict(q.mem)
        return repr([x if not isinstance(x, Pr) else x.key() for x in self.plain(self.canonical(q, k, 1)[2:])])

    def plain(self, x):
        if isinstance(x, (tuple, list)):
            return [self.plain(y) for y in x]
        if isinstance(x, W):
            return ["W", x.b, x.k]
        if isinstance(x, Sy):
            return ["Sy", x.s, x.k]
        if isinstance(x, Pr):
            return ["Pr", x.o, self.plain(x.k), self.plain(x.w), x.sc]
        return x

    def store(self, st, I, p, v, n):
        if isinstance(p, Pr) and p.o == "rows":
            return None
        if isinstance(p, Pr) and p.o == "self" and p.w is None and isinstance(p.k, int):
            if self.field(p.k) == "encodedWritten":
                st.mem[p.k] = v
                return None
            raise Violation("another field of the encoder is written at %s" % self.where(I))
        if not isinstance(p, Pr) or p.o != "out" or p.w is not None or n != 1:
            raise AnalysisError("write at an unknown place at %s" % self.where(I))
        self.bytes += 1
        out = []
        w = self.word(v, 8)
        k = Sy("w", p.k) if isinstance(p.k, int) else p.k
        for q, ff in self.stuffed(st):
            s, pos, last, room, tight, cl, fin = q.mon
            what = "class %s, code of %s bits" % (cl[0], cl[1]) if cl else "no class yet"
            if not isinstance(k, Sy) or k.k != pos:
                raise Violation("a byte is written away from the end of those before, at %s (%s)" % (self.where(I), what))
            if room < 1:
                raise Violation("a byte is written without knowing that there is room, at %s" % self.where(I))
            got = None if w is None or w.k else self.bitsof(q, reversed(w.b))
            self.done += 1
            room -= 1
            if ff:
                if got != (0,) * 8:
                    raise Violation("0xFF is written without a zero byte after it, at %s" % self.where(I))
                q.mon = (s, pos + 1, None, room, tight, cl, fin)
                out.append(q)
                continue
            want = self.bitsof(q, s[:8])
            if fin or got is None or got[:len(want)] != want or any(a not in (0, 1) for a in got[len(want):]) or \
                    not want:
                raise Violation("a byte written is not the next bits of the codes and values, at %s (%s)" % (
                    self.where(I), what))
            q.mon = (s[8:], pos + 1, got, room, tight, cl, len(want) < 8)
            out.append(q)
        return out

    def call(self, st, I):
        nm = I.x[1] if I.x[0] == "glob" else ""
        if nm in ("calloc", "malloc"):
            st.env[I.res] = Pr("rows", "?")
            return None
        return Run.call(self, st, I)

    def ret(self, st, v, I):
        for q in self.settled(st, I):
            s, pos, last, room, tight, cl, fin = q.mon
            self.done += 1
            if not isinstance(v, int):
                raise AnalysisError("result at %s" % self.where(I))
            if v == 0:
                if s:
                    raise Violation("%d bits of the last codes are not written at %s" % (len(s), self.where(I)))
                if q.mem.get(self.o["encodedWritten"]) != Sy("w", pos):
                    raise Violation("the number of bytes written is not kept at %s" % self.where(I))
                if room < 2:
                    raise Violation("the bytes written may leave no room for the end marker, at %s" % self.where(I))
            elif sg(v, 32) == -5:
                if not tight:
                    raise Violation("the encoder gives up with room left, at %s" % self.where(I))
            elif sg(v, 32) != -2:
                raise Violation("result %d at %s" % (sg(v, 32), self.where(I)))


def seeds():
    """the registers with the difference and its class at each lookup"""
    e = Encoder("writeBody", False)
    kinds = {}

    def on(enc, st, I, diff):
        c = tcond("eq", diff)
        z = st.known.get(c[1]) == c[2]
        d = kinds.setdefault((I.block, I.res), {})
        now = {}
        for r, v in st.env.items():
            t = enc.term(st, v)
            if t is None:
                now[r] = None
            elif t == atom("nbits", atom("abs", diff)):
                now[r] = ("class",)
            elif not tadd(t, diff, -1)[1]:
                now[r] = ("E", tadd(t, diff, -1)[0])
            elif not t[1]:
                now[r] = ("const", t[0]) if z else None
            else:
                now[r] = None
        for r, k in now.items():
            d.setdefault(r, set()).add(k)
    e.on_class = on
    e.run(e.starts(False))
    out = {}
    for k, d in kinds.items():
        o = out[k] = {}
        for r, s in d.items():
            t = {x for x in s if x is None or x[0] != "const"}
            if len(t) != 1 or None in t:
                continue
            x = t.pop()
            zero = 0 if x[0] == "class" else x[1]
            if all(y[0] != "const" or y[1] == zero for y in s):
                o[r] = x
    return e, out
