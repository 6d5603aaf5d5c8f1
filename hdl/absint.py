"""Abstract transfer functions of the next-state IR.

A signal value is a tuple of abstract bits.  An abstract bit is
    0, 1                      a known bit
    Node('v', (name, i))      bit i of an opaque source word (provenance)
    Node('n', x)              its complement
    Node('and', {..})         conjunction
    Node('lin', (form, i))    bit i of an affine combination of bits (exact integer arithmetic)
    Node('eqz', form)         predicate  form == 0
    Node('ltz', form)         predicate  form < 0
Nodes are hash-consed, so equal abstract values are identical objects.  Where the IR
branches on a bit that is not known, the analysis partitions (Split) on that bit.
"""
from nmigen.hdl import ast as A
from nmigen.hdl import rec as REC

from ir import AnalysisError


class Split(Exception):
    def __init__(self, node):
        self.node = node


class Node:
    __slots__ = ("kind", "key", "id", "inv", "nosplit")
    table = {}
    count = 0

    def __repr__(self):
        if self.kind == "v":
            return "%s[%d]" % self.key
        if self.kind == "n":
            return "~%r" % (self.key,)
        if self.kind == "and":
            return "(" + " & ".join(map(repr, sorted(self.key, key=lambda n: n.id))) + ")"
        if self.kind == "lin":
            return "bit%d(%s)" % (self.key[1], form_str(self.key[0]))
        if self.kind == "mod":
            return "(%s mod %s2^%d)" % (form_str(self.key[0]), "signed " if self.key[2] else "",
                                        self.key[1])
        return "%s(%s)" % (self.kind, form_str(self.key))

    def __lt__(self, o):
        return self.id < o.id


def _mk(kind, key):
    t = Node.table
    n = t.get((kind, key))
    if n is None:
        n = Node()
        n.kind, n.key, n.inv, n.nosplit = kind, key, None, False
        Node.count += 1
        n.id = Node.count
        t[(kind, key)] = n
    return n


def var(name, i=0):
    return _mk("v", (name, i))


def word(name, width):
    return tuple(var(name, i) for i in range(width))


def const_word(value, width):
    return tuple((value >> i) & 1 for i in range(width))


def neg(b):
    if b == 0:
        return 1
    if b == 1:
        return 0
    if b.kind == "n":
        return b.key
    if b.inv is None:
        b.inv = _mk("n", b)
    return b.inv


# ---- affine forms: (const, ((node, coef), ...)) with exact integer meaning -------
def form_str(f):
    c, ts = f
    out = []
    groups = {}
    for n, k in ts:
        if n.kind == "v":
            groups.setdefault(n.key[0], []).append((n.key[1], k))
        else:
            out.append("%+d*%r" % (k, n))
    for name, bits in groups.items():
        bits.sort()
        k0 = bits[0][1]
        if all(k == k0 * 2 ** j and i == bits[0][0] + j for j, (i, k) in enumerate(bits)):
            rng = "" if bits[0][0] == 0 and len(bits) > 1 else "[%d:%d]" % (bits[0][0], bits[-1][0] + 1)
            out.append("%+d*%s%s" % (k0, name, rng))
        else:
            out.extend("%+d*%s[%d]" % (k, name, i) for i, k in bits)
    if c or not out:
        out.append("%+d" % c)
    return " ".join(out)


def _lit(b):
    """bit -> (const, {node: coef})"""
    if b == 0 or b == 1:
        return b, ()
    if b.kind == "n":
        return 1, ((b.key, -1),)
    return 0, ((b, 1),)


def _freeze(c, d):
    return (c, tuple(sorted(((n, k) for n, k in d.items() if k), key=lambda t: t[0].id)))


def form_of(bits, signed=False, mod=None):
    """Exact integer value of a word of bits as an affine form."""
    c, d = 0, {}
    w = len(bits)
    for i, b in enumerate(bits):
        k = 1 << i
        if signed and i == w - 1:
            k = -k
        if b == 0:
            continue
        if b == 1:
            c += k
            continue
        if b.kind == "n":
            c += k
            d[b.key] = d.get(b.key, 0) - k
        else:
            d[b] = d.get(b, 0) + k
    return _freeze(c, d)


def fadd(f, g, kg=1):
    c = f[0] + kg * g[0]
    d = dict(f[1])
    for n, k in g[1]:
        d[n] = d.get(n, 0) + kg * k
    return _freeze(c, d)


def fscale(f, k):
    return (f[0] * k, tuple((n, c * k) for n, c in f[1])) if k else (0, ())


def frange(f):
    lo = hi = f[0]
    for n, k in f[1]:
        if n.kind == "mod":
            _, w, sg = n.key
            a, b = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            lo += k * (a if k > 0 else b)
            hi += k * (b if k > 0 else a)
        elif k > 0:
            hi += k
        else:
            lo += k
    return lo, hi


def _mod(g, w, sg):
    """the form of (g mod 2^w), read as a signed or unsigned w-bit number"""
    lo, hi = frange(g)
    a, b = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    if a <= lo and hi <= b:
        return g
    # shift by a multiple of 2^w when the whole range lies in one period
    t = (lo - a) >> w
    if t == (hi - a) >> w:
        return (g[0] - (t << w), g[1])
    return (0, ((_mk("mod", (g, w, sg)), 1),))


def _onebit(f):
    return len(f[1]) == 1 and f[1][0][0].kind != "mod"


def _unmod(f, w):
    """drop the mod terms that make no difference modulo 2^w"""
    for n, k in f[1]:
        if n.kind == "mod" and (k << n.key[1]) % (1 << w) == 0:
            d = dict(f[1])
            del d[n]
            return _unmod(fadd((f[0], tuple(d.items())), n.key[0], k), w)
    return f


WORDS = {}               # word of bits -> affine form it is congruent to, modulo 2^width


def _remember(bits, f):
    if len(WORDS) > 400000:
        WORDS.clear()
    for w in range(len(bits), 1, -1):
        WORDS.setdefault(bits[:w], f)


def _recall(bits, signed):
    """affine form of a word that was produced by arithmetic, or None"""
    f = WORDS.get(bits)
    if f is not None:
        return _mod(f, len(bits), signed)
    n = len(bits)
    while n > 2 and bits[n - 1] == 0:                  # zero extension
        n -= 1
        f = WORDS.get(bits[:n])
        if f is not None:
            return _mod(f, n, False)
    if signed:                                         # sign extension
        n = len(bits)
        while n > 2 and bits[n - 1] is bits[n - 2]:
            n -= 1
            f = WORDS.get(bits[:n])
            if f is not None:
                return _mod(f, n, True)
    return None


def _symmod(x, m):
    r = x % m
    return r - m if r > m // 2 else r


def _reduce(f, i):
    """canonical form of bit i of f: depends only on f mod 2^(i+1)"""
    f = _unmod(f, i + 1)
    m = 1 << (i + 1)
    d = {}
    for n, k in f[1]:
        k = _symmod(k, m)
        if k:
            d[n] = k
    return _freeze(_symmod(f[0], m), d)


def _collapse(f, w):
    """replace groups c*(2^j * bit_j(g)) , j<v, by c*g when only f mod 2^w matters"""
    again = True
    guard = 0
    while again:
        again = False
        guard += 1
        if guard > 60:
            return f
        d = dict(f[1])
        tops = sorted((n for n in d if n.kind == "lin"), key=lambda n: -n.key[1])
        for n in tops:
            g, v = n.key
            k = d[n]
            if k % (1 << v):
                continue
            c = k >> v
            ok = True
            members = [(n, k)]
            for j in range(v):
                b = _linbit(g, j)
                kk = c << j
                if b == 0:
                    continue
                if b == 1 or b.kind == "n":
                    members.append((b, kk))
                    continue
                if d.get(b, 0) != kk:
                    # tolerate equality modulo 2^w
                    if (d.get(b, 0) - kk) % (1 << w):
                        ok = False
                        break
                members.append((b, kk))
            if not ok:
                continue
            # sum of members == c * (g mod 2^(v+1)); equals c*g modulo c*2^(v+1)
            if (c << (v + 1)) % (1 << w):
                lo, hi = frange(g)
                if not (0 <= lo and hi < (1 << (v + 1))):
                    continue
            cc = f[0]
            for b, kk in members:
                bc, bt = _lit(b)
                cc -= kk * bc
                for nn, s in bt:
                    d[nn] = d.get(nn, 0) - kk * s
            f = fadd(_freeze(cc, d), g, c)
            again = True
            break
    return f


_linmemo = {}


def _linbit(f, i):
    """abstract bit i of the two's complement value of affine form f"""
    key = (f, i)
    r = _linmemo.get(key)
    if r is not None:
        return r
    r = _linbit0(f, i)
    if len(_linmemo) > 2000000:
        _linmemo.clear()
    _linmemo[key] = r
    return r


def _linbit0(f, i):
    f = _unmod(f, i + 1)
    lo, hi = frange(f)
    if -(1 << i) <= lo and hi < (1 << i):     # bit i is the sign
        return ltz(f)
    f = _reduce(f, i)
    if not f[1]:
        return (f[0] >> i) & 1
    # divide out common powers of two
    while i > 0 and f[0] % 2 == 0 and all(k % 2 == 0 for _, k in f[1]):
        f = (f[0] // 2, tuple((n, k // 2) for n, k in f[1]))
        i -= 1
        f = _reduce(f, i)
    # low part that cannot carry: f = 2^i * rest + low, 0 <= low < 2^i
    low_lo = low_hi = 0
    d, rest = {}, {}
    m = 1 << i
    for n, k in f[1]:
        if k % m == 0:
            rest[n] = k // m
        else:
            d[n] = k
    if i:
        c_low = f[0] % m
        c_high = (f[0] - c_low) // m
        g = _freeze(c_low, d)
        glo, ghi = frange(g)
        if glo >= 0 and ghi < m:
            f2 = _reduce(_freeze(c_high, rest), 0)
            return _parity(f2)
        # try shifting the constant so that low part is within range
        t = glo // m
        if (ghi // m) == t:
            f2 = _reduce(_freeze(c_high + t, rest), 0)
            return _parity(f2)
    else:
        return _parity(f)
    if _onebit(f) and f[0] == 0 and f[1][0][1] == m:
        return f[1][0][0]
    return _mk("lin", (f, i))


def _parity(f):
    """f mod 2"""
    f = _reduce(f, 0)
    if not f[1]:
        return f[0] & 1
    if _onebit(f):
        n = f[1][0][0]
        return neg(n) if f[0] & 1 else n
    if f[0] & 1:
        return neg(_mk("lin", (_freeze(0, dict(f[1])), 0)))
    return _mk("lin", (f, 0))


def bits_of(f, w):
    f = _collapse(_unmod(f, w), w)
    bits = tuple(_linbit(f, i) for i in range(w))
    if len(f[1]) > 1:
        _remember(bits, f)
    return bits


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return abs(a)


def eqz(f):
    lo, hi = frange(f)
    if lo > 0 or hi < 0:
        return 0
    if not f[1]:
        return 1 if f[0] == 0 else 0
    g = 0
    for _, k in f[1]:
        g = _gcd(g, k)
    if f[0] % g:
        return 0
    if g > 1:
        f = (f[0] // g, tuple((n, k // g) for n, k in f[1]))
    if f[1][0][1] < 0:
        f = fscale(f, -1)
    if _onebit(f):
        n, k = f[1][0]
        # k*n + c == 0
        if f[0] == 0:
            return neg(n)
        if f[0] == -k:
            return n
        return 0
    return _mk("eqz", f)


def ltz(f):
    lo, hi = frange(f)
    if hi < 0:
        return 1
    if lo >= 0:
        return 0
    if _onebit(f):
        n, k = f[1][0]
        # value is c (n=0) or c+k (n=1)
        return n if f[0] >= 0 else neg(n)
    g = 0
    for _, k in f[1]:
        g = _gcd(g, k)
    if g > 1:
        # sum g*x + c < 0  <=>  sum x + floor(c/g) < 0   (exact for integers)
        f = (f[0] // g, tuple((n, k // g) for n, k in f[1]))
        return ltz(f)
    # canonical polarity: x<0  vs  not(-x-1<0)
    if f[1][0][1] < 0:
        h = fadd((-1, ()), f, -1)
        return neg(_mk("ltz", h))
    return _mk("ltz", f)


def b_and(items):
    acc = set()
    for b in items:
        if b == 0:
            return 0
        if b == 1:
            continue
        if b.kind == "and":
            acc |= b.key
        else:
            acc.add(b)
    for b in acc:
        if b.kind == "n" and b.key in acc:
            return 0
    if not acc:
        return 1
    if len(acc) == 1:
        return next(iter(acc))
    return _mk("and", frozenset(acc))


def b_or(items):
    return neg(b_and([neg(b) for b in items]))


def b_xor(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    if a == 1:
        return neg(b)
    if b == 1:
        return neg(a)
    fa, fb = form_of((a,)), form_of((b,))
    return _parity(fadd(fa, fb))


# ---- substitution under an assignment of nodes to constants ------------------------
class Env:
    """Facts of the current partition: node -> 0/1"""

    def __init__(self, facts=None):
        self.facts = dict(facts or {})
        self.memo = {}

    def sub(self, b):
        if b == 0 or b == 1:
            return b
        if not self.facts:
            return b
        r = self.memo.get(b)
        if r is None:
            r = self.memo[b] = self._sub(b)
        return r

    def _sub(self, b):
        f = self.facts
        if b in f:
            return f[b]
        k = b.kind
        if k == "v":
            return b
        if k == "n":
            return neg(self.sub(b.key))
        if k == "and":
            r = b_and([self.sub(x) for x in b.key])
        elif k == "lin":
            r = _linbit(self.subform(b.key[0]), b.key[1])
        elif k == "eqz":
            r = eqz(self.subform(b.key))
        elif k == "ltz":
            r = ltz(self.subform(b.key))
        else:
            raise AnalysisError("node kind " + k)
        if r != 0 and r != 1:
            if r in f:
                return f[r]
            if r.kind == "n" and r.key in f:
                return 1 - f[r.key]
        return r

    def subform(self, f):
        c, d = f[0], {}
        for n, k in f[1]:
            if n.kind == "mod":
                g = _mod(self.subform(n.key[0]), n.key[1], n.key[2])
                c += k * g[0]
                for nn, kk in g[1]:
                    d[nn] = d.get(nn, 0) + k * kk
                continue
            s = self.sub(n)
            bc, bt = _lit(s)
            c += k * bc
            for nn, kk in bt:
                d[nn] = d.get(nn, 0) + k * kk
        return _freeze(c, d)

    def subw(self, bits):
        return tuple(self.sub(b) for b in bits)

    def leaf(self, b):
        """an undecided node to partition on in order to decide b"""
        while True:
            k = b.kind
            if k == "v":
                return b
            if k == "n":
                b = b.key
                continue
            if k == "and" and len(b.key) > 4:
                return b
            if k == "and":
                for x in sorted(b.key, key=lambda n: n.id):
                    s = self.sub(x)
                    if s != 0 and s != 1:
                        b = s
                        break
                else:
                    raise AnalysisError("no leaf")
                continue
            form = b.key[0] if k in ("lin", "mod") else b.key
            if any(_is_nosplit(n) for n, _ in form[1]):
                return b
            n = max(form[1], key=lambda t: (abs(t[1]), t[0].id))[0]
            b = n

    def decide(self, b):
        """0 or 1, or partition"""
        if b == 0 or b == 1:
            return b
        s = self.sub(b)
        if s == 0 or s == 1:
            return s
        raise Split(self.leaf(s))

    def value(self, bits):
        v = 0
        for i in range(len(bits) - 1, -1, -1):
            v = v * 2 + self.decide(bits[i])
        return v


NOSPLIT = set()          # names of opaque words that are never partitioned bit by bit


def _is_nosplit(n):
    while n.kind == "n":
        n = n.key
    if n.kind == "v":
        return n.key[0] in NOSPLIT
    if n.kind == "and":
        return any(_is_nosplit(x) for x in n.key)
    form = n.key[0] if n.kind in ("lin", "mod") else n.key
    return any(_is_nosplit(x) for x, _ in form[1])


_CONST, _SHAPE = {}, {}


class Ctx:
    """Evaluation of one clock cycle of a design under a partition."""

    def __init__(self, design, state, inputs, env):
        self.d = design
        self.state = state          # id(sig) -> bits   (registers)
        self.inputs = inputs        # id(sig) -> bits   (undriven signals, cut points, black boxes)
        self.env = env
        self.memo = {}
        self.ops = {}               # value of each operator expression in this cycle
        self.active = set()
        self.used_inputs = set()
        self.trace = []

    # current-cycle value of a signal
    def get(self, sig):
        key = id(sig)
        r = self.memo.get(key)
        if r is not None:
            return r
        if key in self.inputs:
            r = self.inputs[key]
            if len(r) != sig.width:               # a port carries no more than its own bits
                r = tuple(r[:sig.width]) + (0,) * (sig.width - len(r))
        elif key in self.d._cut or key in self.d.bb_out:
            raise AnalysisError("no value supplied for cut signal %s" % sig.name)
        else:
            ds = self.d.drivers.get(key)
            if ds is None:
                r = const_word(sig.reset, sig.width)      # undriven: stays at its reset value
            else:
                if len(ds) > 1:
                    raise AnalysisError("signal %s has several drivers" % sig.name)
                if ds[0].domain is not None:
                    r = self.state.get(key)
                    if r is None:
                        raise AnalysisError("no state for register %s" % sig.name)
                else:
                    if key in self.active:
                        raise AnalysisError("combinational loop through %s" % self.d.where(sig))
                    self.active.add(key)
                    r = self.run(sig, ds[0], const_word(sig.reset, sig.width))
                    self.active.discard(key)
        self.memo[key] = r
        return r

    def next(self, sig):
        """value after the next clock edge of a register"""
        ds = self.d.drivers.get(id(sig))
        if ds is None:
            return const_word(sig.reset, sig.width)       # undriven: stays at its reset value
        if len(ds) > 1:
            raise AnalysisError("signal %s has several drivers" % sig.name)
        if ds[0].domain is None:
            raise AnalysisError("%s is no register" % sig.name)
        cur = self.run(sig, ds[0], (None,) * sig.width)
        if any(b is None for b in cur):               # parts not assigned keep their value
            old = self.state[id(sig)]
            cur = tuple(o if b is None else b for b, o in zip(cur, old))
        return cur

    def run(self, sig, drv, init):
        cur = list(init)
        for st in drv.stmts:
            self.exec(st, sig, cur)
        return tuple(cur)

    def exec(self, st, sig, cur):
        if st[0] == "assign":
            lhs = st[1]
            if lhs is sig:
                cur[:] = self.ev_fit(st[2], len(cur))
            else:
                w = len(lhs)
                self.store(lhs, self.ev_fit(st[2], w), sig, cur)
            return
        test = self.ev(st[1])[0]
        for patterns, body, _ in st[2]:
            if not patterns:
                hit = True
            else:
                hit = any(self.match(test, p) for p in patterns)
            if hit:
                for b in body:
                    self.exec(b, sig, cur)
                return

    def match(self, test, pattern):
        n = len(pattern)
        und = None
        sub = self.env.sub
        for i in range(n):
            ch = pattern[n - 1 - i]
            if ch == "-":
                continue
            b = test[i]
            if b != 0 and b != 1:
                b = sub(b)
            if b == 0 or b == 1:
                if b != (ch == "1"):
                    return False
            elif und is None:
                und = b
        if und is not None:
            raise Split(self.env.leaf(und))
        return True

    def store(self, lhs, bits, sig, cur, base=None):
        """write bits to lhs; only the part landing in sig matters"""
        tgt = self.lhs_bits(lhs)
        for t, b in zip(tgt, bits):
            if t is not None and t[0] is sig:
                cur[t[1]] = b

    def lhs_bits(self, lhs):
        if isinstance(lhs, A.Signal):
            return [(lhs, i) for i in range(lhs.width)]
        if isinstance(lhs, A.Slice):
            return self.lhs_bits(lhs.value)[lhs.start:lhs.stop]
        if isinstance(lhs, A.Cat):
            r = []
            for p in lhs.parts:
                r += self.lhs_bits(p)
            return r
        if isinstance(lhs, A.Part):
            base = self.lhs_bits(lhs.value)
            off = self.env.value(self.ev(lhs.offset)[0]) * lhs.stride
            r = base[off:off + lhs.width]
            return r + [None] * (lhs.width - len(r))
        if isinstance(lhs, A.ArrayProxy):
            elems = [A.Value.cast(e) for e in lhs.elems]
            i = self.env.value(self.ev(A.Value.cast(lhs.index))[0])
            return self.lhs_bits(elems[min(i, len(elems) - 1)])
        if isinstance(lhs, A.UserValue):
            return self.lhs_bits(lhs._lazy_lower())
        if isinstance(lhs, REC.Record):
            r = []
            for f in lhs.fields.values():
                r += self.lhs_bits(f)
            return r
        raise AnalysisError("unsupported assignment target %s" % type(lhs).__name__)

    def ev_fit(self, v, w):
        bits, signed = self.ev(v)
        return ext(bits, signed, w)

    def ev(self, v):
        """(bits, signed)"""
        t = type(v)
        if t is A.Signal:
            r = self.memo.get(id(v))
            return (r if r is not None else self.get(v)), v.signed
        if t is A.Operator:
            r = self.ops.get(id(v))
            if r is None:
                r = self.ops[id(v)] = self.op(v)
            return r
        if t is A.Const:
            r = _CONST.get((v.value, v.width))
            if r is None:
                r = _CONST[v.value, v.width] = const_word(v.value, v.width)
            return r, v.signed
        if t is A.Slice:
            return self.ev(v.value)[0][v.start:v.stop], False
        if isinstance(v, A.Signal):
            return self.get(v), v.signed
        if isinstance(v, A.Cat):
            r = ()
            for p in v.parts:
                r += tuple(self.ev(p)[0])
            return r, False
        if isinstance(v, A.Repl):
            return tuple(self.ev(v.value)[0]) * v.count, False
        if isinstance(v, A.Part):
            base = self.ev(v.value)[0]
            off = self.env.value(self.ev(v.offset)[0]) * v.stride
            r = tuple(base[off:off + v.width])
            return r + (0,) * (v.width - len(r)), False
        if isinstance(v, A.ArrayProxy):
            elems = [A.Value.cast(e) for e in v.elems]
            w, s = v.shape()
            i = self.env.value(self.ev(A.Value.cast(v.index))[0])
            bits, sg = self.ev(elems[min(i, len(elems) - 1)])
            return ext(bits, sg, w), s
        if isinstance(v, A.UserValue):
            return self.ev(v._lazy_lower())
        if isinstance(v, REC.Record):
            r = ()
            for f in v.fields.values():
                r += tuple(self.ev(f)[0])
            return r, False
        if isinstance(v, A.Operator):
            return self.op(v)
        raise AnalysisError("unsupported expression %s" % type(v).__name__)

    def form(self, v):
        bits, signed = v
        sub = self.env.sub
        f = _recall(tuple(bits), signed)
        if f is not None:
            return self.env.subform(f)
        bits = tuple(b if (b == 0 or b == 1) else sub(b) for b in bits)
        f = form_of(bits, signed)
        if any(n.kind == "lin" for n, _ in f[1]):
            lo, hi = frange(f)
            # exact value wanted: collapse only groups whose value provably fits
            f = _collapse(f, 4096)
        return f

    def op(self, v):
        o = v.operator
        sh = _SHAPE.get(id(v))
        if sh is None:
            w, sg = v.shape()
            sh = _SHAPE[id(v)] = (w, sg, v)              # v is kept, so that its id stays its own
        w, sg = sh[0], sh[1]
        xs = v.operands
        if o == "m":
            s = self.ev(xs[0])[0]
            c = self.env.decide(b_or(self.env.subw(s)) if len(s) > 1 else s[0])
            bits, s2 = self.ev(xs[1] if c else xs[2])
            return ext(bits, s2, w), sg
        if o in ("<<", ">>"):
            a, sa = self.ev(xs[0])
            amt, samt = self.ev(xs[1])
            n = self.env.value(amt)
            if samt and amt and self.env.decide(amt[-1]):
                n -= 1 << len(amt)
            if o == ">>":
                n = -n
            if n >= 0:
                return ext((0,) * n + tuple(a), sa, w), sg
            r = tuple(a[-n:])
            if not r:
                r = (a[-1],) if (sa and a) else (0,)
            return ext(r, sa, w), sg
        ev = [self.ev(x) for x in xs]
        if len(ev) == 1:
            a, sa = ev[0]
            if o == "~":
                return tuple(neg(b) for b in a), sa
            if o == "+":
                return a, sa
            if o == "-":
                return bits_of(fscale(self.form(ev[0]), -1), w), sg
            a = self.env.subw(a)
            if o in ("b", "r|"):
                return (b_or(a) if len(a) != 1 else a[0],), False
            if o == "r&":
                return (b_and(a),), False
            if o == "r^":
                r = 0
                for b in a:
                    r = b_xor(r, b)
                return (r,), False
        else:
            (a, sa), (b, sb) = ev
            if o in ("&", "|", "^"):
                a, b = ext(a, sa, w), ext(b, sb, w)
                r = []
                sub = self.env.sub
                for x, y in zip(a, b):
                    if o == "&":
                        z = (y if x == 1 else x if y == 1 else 0 if (x == 0 or y == 0)
                             else x if x is y else b_and((sub(x), sub(y))))
                    elif o == "|":
                        z = (y if x == 0 else x if y == 0 else 1 if (x == 1 or y == 1)
                             else x if x is y else b_or((sub(x), sub(y))))
                    else:
                        z = (y if x == 0 else x if y == 0 else b_xor(sub(x), sub(y)))
                    r.append(z)
                return tuple(r), sg
            if o in ("+", "-"):
                if o == "+" and not sa and not sb:
                    if all(x == 0 for x in b):
                        return ext(a, sa, w), sg
                    if all(x == 0 for x in a):
                        return ext(b, sb, w), sg
                fa, fb = self.form(ev[0]), self.form(ev[1])
                return bits_of(fadd(fa, fb, 1 if o == "+" else -1), w), sg
            if o == "*":
                fa, fb = self.form(ev[0]), self.form(ev[1])
                if not fb[1]:
                    return bits_of(fscale(fa, fb[0]), w), sg
                if not fa[1]:
                    return bits_of(fscale(fb, fa[0]), w), sg
                k = self.env.value(b)
                if sb and b and self.env.decide(b[-1]):
                    k -= 1 << len(b)
                return bits_of(fscale(fa, k), w), sg
            if o in ("%", "//"):
                m = self.env.value(b)
                if m and m & (m - 1) == 0 and not sa:
                    k = m.bit_length() - 1
                    return (ext(a[:k], False, w) if o == "%" else ext(a[k:], False, w)), sg
                x = self.env.value(a)
                if m == 0:
                    return const_word(0, w), sg
                return const_word(x % m if o == "%" else x // m, w), sg
            if o in ("==", "!="):
                r = self.equal(ev[0], ev[1])
                return (r if o == "==" else neg(r),), False
            if o in ("<", "<=", ">", ">="):
                if o in (">", "<="):
                    ev = ev[::-1]
                f = fadd(self.form(ev[0]), self.form(ev[1]), -1)
                r = ltz(f)
                if o in ("<=", ">="):
                    r = neg(r)
                return (r,), False
        raise AnalysisError("unsupported operator %s/%d" % (o, len(xs)))

    def equal(self, x, y):
        (a, sa), (b, sb) = x, y
        w = max(len(a), len(b)) + 1
        a2, b2 = ext(a, sa, w), ext(b, sb, w)
        sub = self.env.sub
        und = []
        for p, q in zip(a2, b2):
            if p is q:
                continue
            if p != 0 and p != 1:
                p = sub(p)
            if q != 0 and q != 1:
                q = sub(q)
            if p is q or (p in (0, 1) and q in (0, 1) and p == q):
                continue
            if (p == 0 or p == 1) and (q == 0 or q == 1):
                return 0
            und.append((p, q))
        if not und:
            return 1
        if all((q == 0 or q == 1) for _, q in und) or all((p == 0 or p == 1) for p, _ in und):
            plain = all((p in (0, 1)) or _simple(p) for p, _ in und) and \
                all((q in (0, 1)) or _simple(q) for _, q in und)
            if plain:
                lits = []
                for p, q in und:
                    if q == 0 or q == 1:
                        lits.append(p if q == 1 else neg(p))
                    else:
                        lits.append(q if p == 1 else neg(q))
                return b_and(lits)
        f = fadd(self.form(x), self.form(y), -1)
        return eqz(f)


def _simple(n):
    while n.kind == "n":
        n = n.key
    return n.kind == "v" and n.key[0] not in NOSPLIT


def ext(bits, signed, w):
    n = len(bits)
    if n == w:
        return tuple(bits)
    if n > w:
        return tuple(bits[:w])
    return tuple(bits) + ((bits[-1] if (signed and n) else 0),) * (w - n)


def cases(fn, facts=None, limit=200000, derive=None):
    """Partition: yields (Env, fn(Env)) for every cube fn needs to distinguish.  derive(facts) may add
    consequences of assumptions about the inputs, or return None for an impossible cube."""
    todo = [dict(facts or {})]
    n = 0
    while todo:
        f = todo.pop()
        f = close(f)
        if f is not None and derive is not None:
            g = derive(f)
            f = g if g is None or g is f else close(g)
        if f is None:
            continue
        env = Env(f)
        try:
            r = fn(env)
        except Split as s:
            node = s.node
            if node in f:
                raise AnalysisError("cannot decide %r" % (node,))
            for v in (1, 0):
                g = dict(f)
                g[node] = v
                todo.append(g)
            continue
        n += 1
        if n > limit:
            raise AnalysisError("more than %d partitions" % limit)
        yield env, r


def close(facts):
    """normal form of a set of facts: known bits are substituted into the composite facts, a true
    conjunction gives its conjuncts; None when the facts contradict each other"""
    comp = [(n, v) for n, v in facts.items() if n.kind != "v"]
    if not comp:
        return facts
    known = {n: v for n, v in facts.items() if n.kind == "v"}
    while True:
        env = Env(known)
        rest, changed, nk = {}, False, dict(known)
        for n, v in comp:
            s = env.sub(n)
            if s == 0 or s == 1:
                if s != v:
                    return None
                continue
            if s.kind == "n":
                s, v = s.key, 1 - v
            if s.kind == "and" and v == 1:
                for x in s.key:
                    y, w = (x.key, 0) if x.kind == "n" else (x, 1)
                    if y.kind == "v":
                        if nk.get(y, w) != w:
                            return None
                        nk[y] = w
                        changed = True
                    else:
                        if rest.get(y, w) != w:
                            return None
                        rest[y] = w
                        changed = True
                continue
            if s.kind == "v":
                if nk.get(s, v) != v:
                    return None
                nk[s] = v
                changed = True
                continue
            if rest.get(s, v) != v:
                return None
            rest[s] = v
        known, comp = nk, list(rest.items())
        if not changed:
            break
    out = dict(known)
    out.update(rest)
    return out


def rename(b, m, memo):
    """rename the opaque bits of an abstract bit; None when it depends on one without a new name"""
    if b == 0 or b == 1:
        return b
    if b in memo:
        return memo[b]
    k = b.kind
    if k == "v":
        r = m.get(b)
    elif k == "n":
        r = rename(b.key, m, memo)
        r = neg(r) if r is not None else None
    elif k == "and":
        xs = [rename(x, m, memo) for x in b.key]
        r = None if any(x is None for x in xs) else b_and(xs)
    else:
        f = rename_form(b.key if k in ("eqz", "ltz") else b.key[0], m, memo)
        if f is None:
            r = None
        elif k == "eqz":
            r = eqz(f)
        elif k == "ltz":
            r = ltz(f)
        elif k == "lin":
            r = _linbit(f, b.key[1])
        else:
            raise AnalysisError("rename " + k)
    memo[b] = r
    return r


def rename_form(f, m, memo):
    c, d = f[0], {}
    for n, k in f[1]:
        if n.kind == "mod":
            g = rename_form(n.key[0], m, memo)
            if g is None:
                return None
            g = _mod(g, n.key[1], n.key[2])
            c += k * g[0]
            for nn, kk in g[1]:
                d[nn] = d.get(nn, 0) + k * kk
            continue
        s = rename(n, m, memo)
        if s is None:
            return None
        bc, bt = _lit(s)
        c += k * bc
        for nn, kk in bt:
            d[nn] = d.get(nn, 0) + k * kk
    return _freeze(c, d)


def survives(d, s, domain="sync"):
    """a register the reset of `domain` does not touch"""
    ds = d.drivers.get(id(s))
    return bool(s.reset_less or ds and ds[0].domain != domain)


def reset_state(regs, d, domain="sync"):
    """register contents right after a reset of `domain`: what the reset does not touch is arbitrary"""
    return {id(s): word("old:%s#%d" % (s.name, i), s.width) if survives(d, s, domain)
            else const_word(s.reset, s.width) for i, s in enumerate(regs)}


def bits_str(bits):
    """compact rendering of an abstract word, most significant bit first"""
    if all(b == 0 or b == 1 for b in bits):
        return "0x%x/%d" % (sum(b << i for i, b in enumerate(bits)), len(bits))
    out, i = [], len(bits) - 1
    while i >= 0:
        b = bits[i]
        if b != 0 and b != 1 and b.kind == "v":
            j = i
            while j - 1 >= 0 and bits[j - 1] not in (0, 1) and bits[j - 1].kind == "v" and \
                    bits[j - 1].key[0] == b.key[0] and bits[j - 1].key[1] == bits[j].key[1] - 1:
                j -= 1
            out.append("%s[%d:%d]" % (b.key[0], bits[j].key[1], b.key[1] + 1))
            i = j - 1
        else:
            j = i
            while j - 1 >= 0 and bits[j - 1] is b or (j - 1 >= 0 and b in (0, 1) and bits[j - 1] == b):
                j -= 1
            out.append(("%dx%r" % (i - j + 1, b)) if i > j else repr(b))
            i = j - 1
    return "{" + ",".join(out) + "}"
