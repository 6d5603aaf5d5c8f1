"""Affine-relation analysis (Karr's domain) of counters.

Control registers are tracked as constants, counters as an affine space over the ghost counters of a
scenario (how far a frame has got, how many cycles have passed) and the registers.  The least fixpoint
over the module's next-state functions is computed by affine hulls; conditions are decided from the
linear relation and the ranges of the ghost counters."""
from fractions import Fraction as F
from lib import *
from ir import A


class Space:
    """point + span(dirs) in Q^n"""

    def __init__(self, point, dirs=()):
        self.point = [F(x) for x in point]
        self.dirs = []
        for d in dirs:
            self._add([F(x) for x in d])

    def _reduce(self, d):
        d = list(d)
        for piv, e in self.dirs:
            if d[piv]:
                k = d[piv]
                d = [a - k * b for a, b in zip(d, e)]
        return d

    def _add(self, d):
        d = self._reduce(d)
        for i, x in enumerate(d):
            if x:
                d = [a / x for a in d]
                self.dirs = [(p, [a - e[i] * b for a, b in zip(e, d)]) for p, e in self.dirs] + [(i, d)]
                return True
        return False

    def has(self, o):
        return not any(self._reduce([a - b for a, b in zip(o.point, self.point)])) and \
            not any(any(self._reduce(d)) for _, d in o.dirs)

    def join(self, o):
        s = Space(self.point, [d for _, d in self.dirs])
        s._add([a - b for a, b in zip(o.point, self.point)])
        for _, d in o.dirs:
            s._add(d)
        return s

    def map(self, rows):
        """rows: for each new coordinate (const, {i: coef}) or None (any value)"""
        n = len(rows)

        def lin(v, c):
            return [F(0) if r is None else (F(r[0]) if c else F(0)) + sum(k * v[i] for i, k in r[1].items())
                    for r in rows]
        dirs = [lin(d, False) for _, d in self.dirs]
        for i, r in enumerate(rows):
            if r is None:
                dirs.append([F(int(j == i)) for j in range(n)])
        return Space(lin(self.point, True), dirs)

    def meet(self, const, coef):
        """the part where const + sum(coef*x) == 0, or None"""
        def at(v):
            return sum(k * v[i] for i, k in coef.items())
        val = F(const) + at(self.point)
        for _, d in self.dirs:
            if at(d):
                p = [a - val / at(d) * b for a, b in zip(self.point, d)]
                rest = [[a - at(e) / at(d) * b for a, b in zip(e, d)] for _, e in self.dirs if e is not d]
                return Space(p, rest)
        return self if val == 0 else None

    def express(self, const, coef, ghosts):
        """const + sum(coef*x) as an affine form over the ghost coordinates, or None"""
        f0 = F(const) + sum(k * self.point[i] for i, k in coef.items())
        eqs = []                                  # sum_j alpha_j d[j] == f_i
        for _, d in self.dirs:
            eqs.append([d[j] for j in ghosts] + [sum(k * d[i] for i, k in coef.items())])
        m = len(ghosts)
        row, piv = 0, []
        for col in range(m):
            for r in range(row, len(eqs)):
                if eqs[r][col]:
                    eqs[row], eqs[r] = eqs[r], eqs[row]
                    k = eqs[row][col]
                    eqs[row] = [x / k for x in eqs[row]]
                    for q in range(len(eqs)):
                        if q != row and eqs[q][col]:
                            k = eqs[q][col]
                            eqs[q] = [x - k * y for x, y in zip(eqs[q], eqs[row])]
                    piv.append(col)
                    row += 1
                    break
        if any(e[m] for e in eqs[row:]):
            return None
        alpha = [F(0)] * m
        for r, col in enumerate(piv):
            alpha[col] = eqs[r][m]
        return f0 - sum(a * self.point[j] for a, j in zip(alpha, ghosts)), alpha


class Undecided(Exception):
    pass


class CannotDecide(AnalysisError):
    pass


class Counters:
    """ghosts: names; ranges(cls) -> (lower bounds per ghost, [(const, {ghost: coef}) >= 0 facts])"""

    def __init__(self, rep, top, outs, ghosts, numeric=lambda s: s.width >= 8, cut=(), limit=3000, domain="sync"):
        self.rep, self.top, self.domain = rep, top, domain
        self.d = Design(top, cut)
        rep.stat(self.d)
        cone = self.d.cone(outs)
        self.regs = sorted((s for s in cone if self.d.is_reg(s)), key=lambda s: (s.name, str(s.src_loc)))
        self.num = [s for s in self.regs if numeric(s)]
        self.ctl = [s for s in self.regs if not numeric(s)]
        self.ghosts = list(ghosts)
        self.ng = len(self.ghosts)
        self.idx = {id(s): self.ng + i for i, s in enumerate(self.num)}
        self.limit = limit
        self.wraps = {}

    def start(self, ghost_space):
        """ghost_space: Space over the ghosts; registers at their reset values (what the reset does
        not touch is arbitrary)"""
        n = len(self.num)
        pt = ghost_space.point + [F(s.reset) for s in self.num]
        dirs = [d + [F(0)] * n for _, d in ghost_space.dirs]
        for i, s in enumerate(self.num):
            if survives(self.d, s, self.domain):
                dirs.append([F(int(j == self.ng + i)) for j in range(self.ng + n)])
        return Space(pt, dirs), tuple(None if survives(self.d, s, self.domain) else s.reset for s in self.ctl)

    def view(self, space, ctl, facts, inputs):
        return View(self, space, ctl, facts, inputs)


class View:
    """one abstract state under the facts of a class; evaluates the IR"""

    def __init__(self, cn, space, ctl, facts, inputs):
        self.cn, self.space, self.facts, self.inputs = cn, space, facts, inputs
        self.ctl = {id(s): v for s, v in zip(cn.ctl, ctl)}
        self.memo = {}

    # forms are (const, {coordinate: coef}); values are ("i", form) or None (unknown)
    def ghost_form(self, f):
        return self.space.express(f[0], f[1], range(self.cn.ng))

    def nonneg(self, gf):
        """gf (over ghosts) provably >= 0"""
        c, al = gf
        lo, ups = self.facts
        if c + sum(a * l for a, l in zip(al, lo)) >= 0 and all(a >= 0 for a in al):
            return True
        for uc, ua in ups:                       # uc + ua.g >= 0
            for k in {-a / ua[j] for j, a in enumerate(al) if j in ua and ua[j] and -a / ua[j] < 0} or set():
                k = -k
                c2 = c - k * uc
                al2 = [a - k * ua.get(j, 0) for j, a in enumerate(al)]
                if all(a >= 0 for a in al2) and c2 + sum(a * l for a, l in zip(al2, lo)) >= 0:
                    return True
        return False

    def sign(self, f):
        """-1, 0, 1 or None"""
        if not any(f[1].values()):
            return (f[0] > 0) - (f[0] < 0)
        g = self.ghost_form(f)
        if g is None:
            return None
        c, al = g
        if not any(al):
            return (c > 0) - (c < 0)
        if self.nonneg((c - 1, al)):
            return 1
        if self.nonneg((-c - 1, [-a for a in al])):
            return -1
        return None

    def fits(self, f, n):
        if not any(f[1].values()):
            return 0 <= f[0] < (1 << n) and f[0].denominator == 1
        g = self.ghost_form(f)
        return g is not None and self.nonneg(g) and \
            self.nonneg(((1 << n) - 1 - g[0], [-a for a in g[1]]))

    def get(self, s):
        r = self.memo.get(id(s), 0)
        if r != 0:
            return r
        k = id(s)
        d = self.cn.d
        if k in self.inputs:
            v = self.inputs[k]
            r = v if v is None or isinstance(v, tuple) else (F(v), {})
            if r is not None:                    # a port carries no more than its own bits
                v, r = r, self.fit(r, s.width)
                if r is None:
                    self.wrapped(s, v)
        elif k in self.cn.idx:
            r = (F(0), {self.cn.idx[k]: F(1)})
        elif k in self.ctl:
            v = self.ctl[k]
            r = None if v is None else (F(v), {})
        elif d.drivers.get(k) and d.drivers[k][0].domain is None:
            r = self.drive(s, (F(s.reset), {}))
        elif not d.drivers.get(k):
            r = (F(s.reset), {})
        else:
            raise AnalysisError("no value for %s" % s.name)
        self.memo[k] = r
        return r

    def next(self, s):
        return self.drive(s, self.get(s))

    def drive(self, s, init):
        ds = self.cn.d.drivers[id(s)]
        if len(ds) > 1:
            raise AnalysisError("signal %s has several drivers" % s.name)
        box = [init]
        for st in ds[0].stmts:
            self.run(st, s, box)
        return box[0]

    def run(self, st, s, box):
        if st[0] == "assign":
            if st[1] is not s:
                raise AnalysisError("partial assignment to counter %s" % s.name)
            v = self.ev(st[2])
            box[0] = self.fit(v, s.width)
            if v is not None and box[0] is None:
                self.wrapped(s, v)
            return
        t = self.ev(st[1])
        if t is None or any(t[1].values()):
            raise Undecided(self.show(st[1], t))
        t = int(t[0])
        n = len(st[1])
        for pats, body, _ in st[2]:
            if not pats or any(all(p[n - 1 - i] in ("-", str((t >> i) & 1)) for i in range(n)) for p in pats):
                for b in body:
                    self.run(b, s, box)
                return

    def wrapped(self, s, v):
        """remember a register that is certainly given a value beyond its width in some scenario"""
        g = self.ghost_form(v)
        if g is None:
            return
        c, al = g
        lo, ups = self.facts
        for j, a in enumerate(al):
            if a <= 0:
                continue
            top = min([(uc + sum(k * lo[i] for i, k in ua.items() if i != j)) / -ua[j]
                       for uc, ua in ups if ua.get(j, 0) < 0] or [None], key=lambda x: (x is None, x))
            if top is None or top < lo[j]:
                continue
            x = c + sum(k * (top if i == j else lo[i]) for i, k in enumerate(al))
            if x >= 1 << s.width:
                self.cn.wraps[id(s)] = (s, int(x))

    def show(self, e, t):
        return "%r" % (e,)

    def fit(self, v, n):
        if v is None:
            return None
        if not any(v[1].values()) and v[0].denominator == 1:
            return F(int(v[0]) & ((1 << n) - 1)), {}
        return v if self.fits(v, n) else None

    def ev(self, e):
        if isinstance(e, A.Signal):
            if e.signed:
                raise AnalysisError("signed counter %s" % e.name)
            return self.get(e)
        if isinstance(e, A.Const):
            return F(e.value), {}
        if isinstance(e, A.Slice):
            v = self.ev(e.value)
            if v is None:
                return None
            if not any(v[1].values()):
                return F((int(v[0]) >> e.start) & ((1 << (e.stop - e.start)) - 1)), {}
            return self.fit(v, e.stop) if e.start == 0 else None
        if isinstance(e, A.Cat):
            r, k = (F(0), {}), 0
            for p in e.parts:
                v = self.ev(p)
                if v is None:
                    return None
                r = _add(r, v, 1 << k)
                k += len(p)
            return r
        if isinstance(e, A.Operator):
            return self.op(e)
        if isinstance(e, A.UserValue):
            return self.ev(e._lazy_lower())
        raise AnalysisError("unsupported expression %s on counters" % type(e).__name__)

    def op(self, e):
        o, xs = e.operator, e.operands
        if o == "m":
            c = self.ev(xs[0])
            if c is None or any(c[1].values()):
                a, b = self.ev(xs[1]), self.ev(xs[2])
                return a if a is not None and a == b else None
            return self.ev(xs[1] if c[0] else xs[2])
        vs = [self.ev(x) for x in xs]
        cst = [v is not None and not any(v[1].values()) for v in vs]
        if len(vs) == 1:
            v = vs[0]
            if o in ("b", "r|"):
                if v is None:
                    return None
                s = self.sign(v)
                return None if s is None else (F(int(s != 0)), {})
            if o == "~" and cst[0]:
                return F(~int(v[0]) & ((1 << len(xs[0])) - 1)), {}
            if o == "-":
                return None if v is None else (-v[0], {i: -k for i, k in v[1].items()})
            return None
        a, b = vs
        if o in ("&", "|", "^"):
            if all(cst):
                x, y = int(a[0]), int(b[0])
                return F(x & y if o == "&" else x | y if o == "|" else x ^ y), {}
            for v, c in ((a, cst[0]), (b, cst[1])):
                if c and o == "&" and v[0] == 0:
                    return F(0), {}
                if c and o == "|" and v[0] == 1 and len(xs[0]) == len(xs[1]) == 1:
                    return F(1), {}
            return None
        if a is None or b is None:
            return None
        if o in ("+", "-"):
            return _add(a, b, 1 if o == "+" else -1)
        if o == "*":
            if cst[1]:
                return a[0] * b[0], {i: k * b[0] for i, k in a[1].items()}
            if cst[0]:
                return a[0] * b[0], {i: k * a[0] for i, k in b[1].items()}
            return None
        if o == "<<" and cst[1]:
            k = 1 << int(b[0])
            return a[0] * k, {i: c * k for i, c in a[1].items()}
        if o in (">>", "//", "%") and all(cst):
            x, y = int(a[0]), int(b[0])
            return F(x >> y if o == ">>" else (x // y if o == "//" else x % y) if y else 0), {}
        if o in ("==", "!=", "<", "<=", ">", ">="):
            s = self.sign(_add(a, b, -1))
            if s is None:
                return None
            return F(int({"==": s == 0, "!=": s != 0, "<": s < 0, "<=": s <= 0, ">": s > 0, ">=": s >= 0}[o])), {}
        return None


def _add(a, b, k):
    d = dict(a[1])
    for i, c in b[1].items():
        d[i] = d.get(i, 0) + k * c
    return a[0] + k * b[0], {i: c for i, c in d.items() if c}


def fixpoint(cn, starts, classes, moves, step, again=False):
    """starts: [(plain, Space over ghosts)].
    classes(plain, space, least) -> [(plain', space', facts)]: case split on the ghosts
    moves(plain) -> [(label, inputs(dict or fn))]
    step(view, plain, label) -> (plain', ghost rows) or None
    """
    rep = cn.rep
    table, todo = {}, []

    def put(ctl, plain, space, least):
        for plain2, sp2, facts in classes(plain, space, least):
            key = (ctl, plain2)
            old = table.get(key)
            if old is None:
                table[key] = (sp2, facts)
            elif old[0].has(sp2):
                continue
            else:
                table[key] = (old[0].join(sp2), facts)
            if key not in todo:
                todo.append(key)
            if len(table) > cn.limit:
                raise AnalysisError("counter analysis does not converge")
    for plain, g in starts:
        sp, ctl = cn.start(g)
        put(ctl, plain, sp, [0] * cn.ng)
    n = 0
    stuck = None
    while todo:
        key = todo.pop(0)
        ctl, plain = key
        space, facts = table[key]
        for label, inputs in moves(plain):
            n += 1
            if n > 20000:
                raise AnalysisError("counter analysis does not converge")
            v = cn.view(space, ctl, facts, inputs)
            try:
                r = step(v, plain, label)
                if r is None:
                    continue
                plain2, rows = r
                nc = []
                for s in cn.ctl:
                    x = v.next(s)
                    if x is None or any(x[1].values()):
                        nc.append(None)
                    else:
                        nc.append(int(x[0]))
                nn = [v.next(s) for s in cn.num]
            except Undecided as e:
                for s, x in cn.wraps.values():
                    rep.check(False, "counter-range", "%s, %s" % (cname(cn.top), s.name), "%s has %d bits but is "
                              "given values up to %d; from then on %s does not follow the count; %s"
                              % (s.name, s.width, x, e, cn.d.where(s)))
                left = [s for s in cn.num + cn.ctl if survives(cn.d, s, cn.domain)]
                for s in left if not cn.wraps else ():
                    rep.check(False, "leftover-count", "%s, %s" % (cname(cn.top), s.name), "%s is not set by the reset; "
                              "what follows depends on what is left in it (%s); %s" % (s.name, e, cn.d.where(s)))
                if cn.wraps or left:
                    continue
                stuck = stuck or "counters: cannot decide %s in %s" % (e, plain)
                continue
            sp = space.map(list(rows) + nn)
            # what the old class says about the new ghost values
            least = [max(0, r[0] + sum(k * facts[0][i] for i, k in r[1].items()))
                     if all(k >= 0 and i < cn.ng for i, k in r[1].items()) else 0 for r in rows]
            for j, r in enumerate(rows):
                if len(r[1]) == 1:
                    (i, k), = r[1].items()
                    if k == 1:
                        least[j] = max(0, facts[0][i] + r[0])
            put(tuple(nc), plain2, sp, least)
        if rep.bad:
            break
    if stuck and (again or not rep.bad):
        raise CannotDecide(stuck)
    rep.count("control-states", len(table))
    rep.count("transfer-steps", n)
    return table


# ---- frame geometry -----------------------------------------------------------------------
def signals(rep, ps):
    """new_row marks exactly the first group of each row, end_of_frame exactly the last group"""
    # the positions that are told apart: more of them when the module compares with further ones
    for tops in ((1, 2, 1, 2), (3, 4, 3, 4), (6, 7, 6, 7)):
        try:
            return _signals(rep, ps, tops)
        except CannotDecide as e:
            if tops[0] == 6:
                if not rep.bad:
                    small_frames(rep, ps)
                if not rep.bad:
                    raise AnalysisError(str(e))
            else:
                del rep.bad[:]          # told apart too little: try again with more classes


def explicit(rep, top, outs, starts, moves, step):
    """every register by its values: the fixpoint for given numbers (only to show what is wrong when the one for
    all numbers cannot decide)"""
    cn = Counters(rep, top, outs, [], numeric=lambda s: False, limit=20000)
    try:
        fixpoint(cn, [(p, Space([], [])) for p in starts], lambda p, sp, least: [(p, sp, ([], []))], moves, step)
    except AnalysisError:
        pass


def small_frames(rep, ps):
    top = make_cfg("signals", "Signals", {"pixels_per_cycle": ps})

    def moves(plain):
        c, u, r, w = plain
        return [(i, {id(top.new_input): i, id(top.width): ps * (c + u + 1), id(top.height): r + w + 1}) for i in (0, 1)]

    def step(v, plain, i):
        c, u, r, w = plain
        if not i:
            return plain, []
        nr, ef = v.get(top.new_row), v.get(top.end_of_frame)
        at = "group %d of %d in row %d of %d" % (c + 1, c + u + 1, r + 1, r + w + 1)
        ok = nr is None or rep.check(nr[0] == int(c == 0), "row-start", cname(top) + ", new_row",
                                     lambda: "%s per cycle: new_row is %s on %s" % (ps, nr[0], at))
        ok &= ef is None or rep.check(ef[0] == int(u == 0 and w == 0), "frame-end", cname(top) + ", end_of_frame",
                                      lambda: "%s per cycle: end_of_frame is %s on %s" % (ps, ef[0], at))
        if not ok or u == 0 and w == 0:
            return None
        return ((0, c, r + 1, w - 1) if u == 0 else (c + 1, u - 1, r, w)), []
    explicit(rep, top, [top.new_row, top.end_of_frame],
             [(0, u, 0, w) for u in range(5) for w in range(5) if u + w], moves, step)


def _signals(rep, ps, tops):
    top = make_cfg("signals", "Signals", {"pixels_per_cycle": ps})
    # ghosts: C groups before this one in the row, U after it, R rows before, V rows after
    cn = Counters(rep, top, [top.new_row, top.end_of_frame], ["C", "U", "R", "V"])
    name = cname(top)
    width = (F(ps), {0: F(ps), 1: F(ps)})
    height = (F(1), {2: F(1), 3: F(1)})
    ups = [(F(65535 - ps), {0: F(-ps), 1: F(-ps)}), (F(65534), {2: F(-1), 3: F(-1)})]

    def classes(plain, space, least):
        out = [((), space, [0, 0, 0, 0])]
        for g, top_ in enumerate(tops):
            nxt = []
            for tag, sp, lo in out:
                for v in range(top_):
                    m = sp.meet(-v, {g: F(1)})
                    if m is not None and v >= least[g]:
                        nxt.append((tag + (v,), m, lo[:g] + [v] + lo[g + 1:]))
                gf = (sp.point[g], any(d[g] for _, d in sp.dirs))
                if gf[1] or gf[0] >= top_:
                    nxt.append((tag + (">=%d" % top_,), sp, lo[:g] + [top_] + lo[g + 1:]))
            out = nxt
        return [(tag, sp, (lo, ups)) for tag, sp, lo in out
                if tag != (0, 0, 0, 0)]              # a frame has at least two groups

    def moves(plain):
        return [(i, {id(top.new_input): i, id(top.width): width, id(top.height): height}) for i in (0, 1)]

    def frame(plain):
        c, u, r, v = plain
        return "row %s of the frame (%s after it), group %s of the row (%s after it)" % (r, v, c, u)

    def step(v, plain, i):
        c, u, r, w = plain
        if not i:
            return plain, [(F(0), {j: F(1)}) for j in range(4)]
        nr, ef = v.get(top.new_row), v.get(top.end_of_frame)
        first, last = c == 0, u == 0 and w == 0
        ok = rep.check(nr is not None and nr[0] == int(first), "row-start", name + ", new_row",
                       lambda: "%s per cycle: new_row is %s on %s; %s" % (ps, nr and nr[0], frame(plain),
                                                                         cn.d.where(top.new_row)))
        ok &= rep.check(ef is not None and ef[0] == int(last), "frame-end", name + ", end_of_frame",
                        lambda: "%s per cycle: end_of_frame is %s on %s; %s"
                        % (ps, ef and ef[0], frame(plain), cn.d.where(top.end_of_frame)))
        if not ok or last:
            return None
        if u == 0:
            return (), [(F(0), {}), (F(0), {0: F(1)}), (F(1), {2: F(1)}), (F(-1), {3: F(1)})]
        return (), [(F(1), {0: F(1)}), (F(-1), {1: F(1)}), (F(0), {2: F(1)}), (F(0), {3: F(1)})]
    start = Space([0, 0, 0, 0], [[0, 1, 0, 0], [0, 0, 0, 1]])
    t = fixpoint(cn, [((), start)], classes, moves, step, again=tops[0] < 6)
    rep.sample("Signals ps=%d: all frames, %d control states" % (ps, len(t)))
