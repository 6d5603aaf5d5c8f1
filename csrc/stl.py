"""Abstract semantics of the library calls the board software makes: strings, vectors, arithmetic, system calls."""
import re

import bits
from bits import Choice, F, K, NULL, Obj, P, Stop, U, W
from llir import AnalysisError

STR = re.compile(r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>\s*>")
_simple = {}


def simple(d):
    if d not in _simple:
        s = STR.sub("string", d)
        s = re.sub(r"std::basic_string<char, std::char_traits<char>, std::allocator<char>\s*>", "string", s)
        s = re.sub(r"\[abi:\w+\]", "", s)
        prev = None
        while prev != s:
            prev = s
            s = re.sub(r"std::vector<([^<>]+), std::allocator<\1\s*>\s*>", r"vector<\1>", s)
        _simple[d] = s
    return _simple[d]


class S:
    """a string: tuple of literal pieces and ("num", word, signed)"""
    __slots__ = ("parts",)

    def __init__(self, parts=()):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "":
                out.append(p)
        self.parts = tuple(out)

    def __eq__(self, o):
        return isinstance(o, S) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return " ".join(repr(p) if isinstance(p, str) else "<%r>" % (p[1],) for p in self.parts)


class V:
    """a vector: element size and tuple of elements; an element may be ("if", literal, value, element)"""
    __slots__ = ("esz", "val")

    def __init__(self, esz, val=()):
        self.esz, self.val = esz, tuple(val)

    def __eq__(self, o):
        return isinstance(o, V) and (self.esz, self.val) == (o.esz, o.val)

    def __hash__(self):
        return hash(self.val)


SIZES = {"unsigned long": 8, "long": 8, "unsigned int": 4, "int": 4, "unsigned short": 2, "short": 2,
         "unsigned char": 1, "char": 1, "string": 32, "bool": 1, "unsigned long long": 8, "long long": 8}


def cells(p):
    return p.obj.cells


def get(fr, p):
    o = p.obj
    if o is None:
        raise AnalysisError("library object through a null pointer")
    if o.kind == "vecdata":
        v = get(fr, o.val)
        i, r = divmod(p.off, v.esz)
        if r or not 0 <= i < len(v.val):
            fr.ev.faults.append("element %d of a vector of %d" % (i, len(v.val)))
            raise Stop()
        e = v.val[i]
        if isinstance(e, tuple):
            raise AnalysisError("element of a vector whose length depends on data")
        return e
    c = o.cells.get(p.off)
    if c is None or not isinstance(c[1], (S, V, Choice)):
        raise AnalysisError("no string or vector at %r" % (p,))
    return c[1]


def put(p, v):
    p.obj.cells[p.off] = (32 if isinstance(v, S) else 24, v)


def chars(fr, p):
    """a string made of what p points to"""
    if isinstance(p, Choice):
        return Choice(p.c, chars(fr, p.a), chars(fr, p.b))
    return S((cstr(fr, p),))


def cstr(fr, p):
    if not isinstance(p, P) or p.obj is None:
        raise AnalysisError("string from %r" % (p,))
    out, i = "", p.off
    while True:
        if p.obj.kind == "data":
            if i >= len(p.obj.val):
                raise AnalysisError("unterminated string")
            c = p.obj.val[i]
        else:
            w = p.obj.cells.get(i)
            c = w[1].const if w and isinstance(w[1], W) else None
            if c is None:
                raise AnalysisError("string from unknown memory")
        if c == 0:
            return out
        out += chr(c)
        i += 1


def text(fr, p):
    """a string argument: std::string object or char pointer"""
    if p.obj is not None and (p.obj.kind == "vecdata" or p.off in p.obj.cells and isinstance(p.obj.cells[p.off][1], (S, Choice))):
        return get(fr, p)
    return S((cstr(fr, p),))


def cat(a, b):
    if isinstance(a, Choice):
        return Choice(a.c, cat(a.a, b), cat(a.b, b))
    if isinstance(b, Choice):
        return Choice(b.c, cat(a, b.a), cat(a, b.b))
    return S(a.parts + b.parts)


def vdata(p):
    o = Obj("vecdata", "elements")
    o.val = p
    # one data object per vector so that iterators compare
    key = (id(p.obj), p.off)
    reg = p.obj.__dict__.setdefault("iters", {})
    return reg.setdefault(key, o)


def elem(fr, d, T, arg):
    if T == "string":
        return text(fr, arg)
    return fr.load(arg, ("i", SIZES[T] * 8) if T in SIZES else ("ptr",), None)


def model(fr, I, name, d, args):
    ev = fr.ev
    s = simple(d)
    for pat, fn in ev.externs.items():
        if re.match(pat, s):
            return fn(fr, s, args)
    if name.startswith("llvm."):
        if name.startswith("llvm.bswap"):
            a = args[0]
            return W(b for k in reversed(range(0, len(a), 8)) for b in a.bits[k:k + 8])
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            return copy(fr, args)
        if name.startswith("llvm.memset"):
            return fill(fr, args)
        if re.match(r"llvm\.(lifetime|dbg|assume|stacksave|stackrestore|experimental|invariant)", name):
            return None
        m = re.match(r"llvm\.(umax|umin|smax|smin)\.i(\d+)", name)
        if m:
            a, b = (x.const if isinstance(x, W) else None for x in args)
            n = int(m.group(2))
            if a is None or b is None:
                return W((None,) * n)
            f = max if m.group(1).endswith("max") else min
            return K(f(a, b) if m.group(1)[0] == "u" else f(bits.sgn(a, n), bits.sgn(b, n)) & ((1 << n) - 1), n)
        raise AnalysisError("call of %s" % name)
    if s.startswith("assert_term("):
        c = fr.cond(args[0])
        if c is False:
            raise Stop()
        return None
    if re.match(r"(std::)?(exit|abort|_Exit|quick_exit|terminate)\b", s):
        raise Stop()
    if re.match(r"log\(|std::ostream|std::operator<<|printf|puts|putchar|fprintf|fflush", s):
        return args[0] if args else K(0, 32)
    if re.match(r"(usleep|nanosleep|sched_yield|sleep)$", s) or s.startswith("std::this_thread::"):
        return K(0, 32)
    if s.startswith("memcpy") or s.startswith("memmove"):
        copy(fr, args)
        return args[0]
    if s.startswith("memset"):
        fill(fr, args)
        return args[0]
    if "std::pow" in s or s == "pow" or s in ("exp2", "ldexp", "floor", "ceil", "std::exp2"):
        xs = []
        for a in args:
            if isinstance(a, F):
                xs.append(a.v)
            elif isinstance(a, W) and a.const is not None:
                sg = re.search(r"\((.*)\)$", s)
                xs.append(float(a.const))
            else:
                return U()
        if "pow" in s:
            return F(xs[0] ** xs[1])
        return U()
    if s.startswith("std::__new_allocator<") or s.startswith("std::allocator<") or \
            s.startswith("std::initializer_list") and "~" in s:
        return None
    # ---- strings
    m = re.match(r"std::(?:__cxx11::)?to_string\((.*)\)$", s)
    if m:
        v = args[1]
        if isinstance(v, W) and v.const is not None:
            c = bits.sgn(v.const, len(v)) if "unsigned" not in m.group(1) else v.const
            put(args[0], S((str(c),)))
        else:
            put(args[0], S((("num", v, "unsigned" not in m.group(1)),)))
        return None
    m = re.match(r"string::(?:basic_)?string\((.*)\)$", s) or re.match(r"string::basic_string<.*>\((.*)\)$", s)
    if m:
        sig = m.group(1)
        if sig.startswith("char const*"):
            put(args[0], chars(fr, args[1]))
        elif sig.startswith("string"):
            put(args[0], get(fr, args[1]))
        elif sig in ("", "std::allocator<char> const&"):
            put(args[0], S())
        else:
            raise AnalysisError("call of %s" % s)
        return None
    if re.match(r"string::~", s):
        return None
    if re.match(r"string std::operator\+<", s) or s.startswith("std::operator+"):
        put(args[0], cat(text(fr, args[1]), text(fr, args[2])))
        return None
    if re.match(r"string::(operator\+=|append)\((char const\*|string const&|string&&)\)", s):
        put(args[0], cat(get(fr, args[0]), text(fr, args[1])))
        return args[0]
    if re.match(r"string::operator=\(", s):
        put(args[0], text(fr, args[1]))
        return args[0]
    if re.match(r"string::c_str\(\)|string::data\(\)", s):
        return args[0]
    # ---- vectors
    m = re.match(r"(?:.* )?vector<([^<>]+)>::(~?[\w\[\]=]+|operator\[\])(?:<.*>)?\((.*)\)( const)?$", s)
    if m:
        return vector(fr, I, m.group(1), m.group(2), m.group(3), args, s)
    return NotImplemented


def copy(fr, args):
    d, s, n = args[:3]
    n = n.const
    if n is None or not isinstance(d, P) or not isinstance(s, P) or d.obj.kind != "mem" or \
            s.obj.kind not in ("mem", "data"):
        raise AnalysisError("memory copy of unknown extent")
    for a in [a for a, (z, _) in d.obj.cells.items() if a < d.off + n and d.off < a + z]:
        del d.obj.cells[a]
    if s.obj.kind == "data":
        for k in range(n):
            d.obj.cells[d.off + k] = (1, K(s.obj.val[s.off + k], 8))
        return None
    for a, (z, v) in list(s.obj.cells.items()):
        if s.off <= a and a + z <= s.off + n:
            d.obj.cells[d.off + a - s.off] = (z, v)
        elif a < s.off + n and s.off < a + z:
            raise AnalysisError("memory copy through the middle of a value")
    return None


def fill(fr, args):
    d, v, n = args[:3]
    if n.const is None or v.const is None or not isinstance(d, P):
        raise AnalysisError("memory fill of unknown extent")
    if d.obj.kind == "mmio":
        fr.ev.events.append(("fill", d.obj, d.off, n.const, v, "memset"))
        return None
    for a in [a for a, (z, _) in d.obj.cells.items() if a < d.off + n.const and d.off < a + z]:
        del d.obj.cells[a]
    for k in range(n.const):
        d.obj.cells[d.off + k] = (1, v)
    return None


def alternatives(e):
    """an element that is one of two by a single bit: two guarded elements"""
    if not isinstance(e, Choice):
        return (e,)
    if e.c[0] != "all" or len(e.c[1]) != 1:
        raise AnalysisError("element chosen by more than one bit")
    lit, v = e.c[1][0]
    v = v if e.c[2] else 1 - v
    return tuple(("if", lit, v, x) for x in alternatives(e.a)) + \
        tuple(("if", lit, 1 - v, x) for x in alternatives(e.b))


def vector(fr, I, T, meth, sig, args, s):
    esz = SIZES.get(T)
    if esz is None:
        raise AnalysisError("call of %s" % s)
    if meth == "vector":
        if sig.startswith("std::initializer_list"):
            # (this, array, count, allocator): the list is passed as pointer and length
            arr, n = args[1], args[2]
            if n.const is None:
                raise AnalysisError("list of unknown length")
            put(args[0], V(esz, [elem(fr, arr, T, P(arr.obj, arr.off + k * esz)) for k in range(n.const)]))
        elif sig.startswith("vector<"):
            put(args[0], get(fr, args[1]))
        elif sig == "" or sig.startswith("std::allocator"):
            put(args[0], V(esz))
        elif sig.startswith("unsigned long"):
            n = args[1].const
            if n is None or n > 4096:
                raise AnalysisError("vector of unknown length")
            if re.match(r"unsigned long, %s const&" % re.escape(T), sig):
                e = elem(fr, args[1], T, args[2])
            else:
                e = S() if T == "string" else K(0, esz * 8)
            put(args[0], V(esz, [e] * n))
        else:
            raise AnalysisError("call of %s" % s)
        return None
    if meth == "~vector":
        return None
    v = get(fr, args[0])
    guarded = any(isinstance(e, tuple) for e in v.val)
    if meth in ("push_back", "emplace_back"):
        a = args[1]
        if isinstance(a, P) and a.obj is not None:
            e = elem(fr, a, T, a)
        else:
            raise AnalysisError("call of %s" % s)
        put(args[0], V(esz, v.val + alternatives(e)))
        d = vdata(args[0])
        return P(d, len(v.val) * esz)
    if meth in ("reserve", "shrink_to_fit"):
        return None
    if meth == "clear":
        put(args[0], V(esz))
        return None
    if meth == "operator=":
        put(args[0], get(fr, args[1]))
        return args[0]
    if meth in ("begin", "cbegin", "data"):
        return P(vdata(args[0]), 0)
    if meth in ("operator[]", "at"):
        i = args[1].const if isinstance(args[1], W) else None
        if i is None:
            raise AnalysisError("vector index from data")
        if not guarded and i >= len(v.val):
            fr.ev.faults.append("element %d of a vector of %d at %s" % (i, len(v.val), fr.m.where(I)))
            raise Stop()
        if guarded:
            raise AnalysisError("index into a vector whose length depends on data")
        return P(vdata(args[0]), i * esz)
    if meth == "end" or meth == "cend":
        return P(vdata(args[0]), len(v.val) * esz)
    if meth == "size":
        if guarded:
            raise AnalysisError("size of a vector whose length depends on data")
        return K(len(v.val), 64)
    if meth == "empty":
        if guarded:
            raise AnalysisError("size of a vector whose length depends on data")
        return K(int(not v.val), 1)
    if meth in ("back", "front"):
        return P(vdata(args[0]), (len(v.val) - 1) * esz if meth == "back" else 0)
    if meth == "insert" and len(args) == 4:
        pos, a, b = args[1:]
        if a.obj is not b.obj or a.obj.kind != "vecdata":
            raise AnalysisError("call of %s" % s)
        src = get(fr, a.obj.val)
        at = pos.off // esz
        put(args[0], V(esz, v.val[:at] + src.val[a.off // src.esz:b.off // src.esz] + v.val[at:]))
        return P(vdata(args[0]), pos.off)
    raise AnalysisError("call of %s" % s)
