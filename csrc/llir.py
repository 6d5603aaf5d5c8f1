"""LLVM IR of the C and C++ sources: /repo's files are compiled (not linked, not run) by clang, `opt` puts
scalars into SSA form, and the text is parsed into functions, blocks and instructions."""
import os
import re
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "hdl"))
from ir import AnalysisError, ElabError                     # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")


# ---- types: ("i", n) ("ptr",) ("f", n) ("arr", n, T) ("struct", (T..), packed) ("void",) ("named", name)
class Types:
    def __init__(self):
        self.named = {}

    def parse(self, s, i=0):
        """(type, next position)"""
        while s[i] == " ":
            i += 1
        if s.startswith("ptr", i):
            return ("ptr",), i + 3
        if s.startswith("void", i):
            return ("void",), i + 4
        m = re.compile(r"i(\d+)").match(s, i)
        if m:
            return ("i", int(m.group(1))), m.end()
        for n, w in (("double", 64), ("float", 32), ("x86_fp80", 128)):
            if s.startswith(n, i):
                return ("f", w), i + len(n)
        if s[i] == "[":
            m = re.compile(r"\[(\d+) x ").match(s, i)
            t, j = self.parse(s, m.end())
            return ("arr", int(m.group(1)), t), j + 1
        if s[i] == "{" or s.startswith("<{", i):
            packed = s[i] == "<"
            j, el = i + (2 if packed else 1), []
            while s[j] in " ,":
                j += 1
            while s[j] != "}":
                t, j = self.parse(s, j)
                el.append(t)
                while s[j] in " ,":
                    j += 1
            return ("struct", tuple(el), packed), j + (2 if packed else 1)
        if s[i] == "<":
            m = re.compile(r"<(\d+) x ").match(s, i)
            t, j = self.parse(s, m.end())
            return ("arr", int(m.group(1)), t), j + 1
        m = re.compile(r'%("[^"]*"|[-\w.$]+)').match(s, i)
        if m:
            return ("named", m.group(1)), m.end()
        if s.startswith("opaque", i):
            return ("opaque",), i + 6
        if s.startswith("metadata", i) or s.startswith("label", i) or s.startswith("token", i):
            return ("meta",), i + len(re.compile(r"\w+").match(s, i).group(0))
        raise AnalysisError("type %r" % s[i:i + 40])

    def resolve(self, t):
        while t[0] == "named":
            t = self.named.get(t[1], ("opaque",))
        return t

    def align(self, t):
        t = self.resolve(t)
        if t[0] == "i":
            return max(1, min(16, (t[1] + 7) // 8))
        if t[0] == "ptr":
            return 8
        if t[0] == "f":
            return t[1] // 8
        if t[0] == "arr":
            return self.align(t[2])
        if t[0] == "struct":
            return 1 if t[2] else max([self.align(x) for x in t[1]] or [1])
        return 1

    def size(self, t):
        t = self.resolve(t)
        if t[0] == "i":
            n = (t[1] + 7) // 8
            return 1 << (n - 1).bit_length() if n else 0
        if t[0] == "ptr":
            return 8
        if t[0] == "f":
            return t[1] // 8
        if t[0] == "arr":
            return t[1] * self.size(t[2])
        if t[0] == "struct":
            o = 0
            for x in t[1]:
                if not t[2]:
                    a = self.align(x)
                    o = -(-o // a) * a
                o += self.size(x)
            a = self.align(t)
            return -(-o // a) * a
        raise AnalysisError("size of %r" % (t,))

    def field(self, t, k):
        """(offset, type) of element k of an aggregate"""
        t = self.resolve(t)
        if t[0] == "arr":
            return k * self.size(t[2]), t[2]
        o = 0
        for j, x in enumerate(t[1]):
            if not t[2]:
                a = self.align(x)
                o = -(-o // a) * a
            if j == k:
                return o, x
            o += self.size(x)
        raise AnalysisError("field %d of %r" % (k, t))


class Inst:
    __slots__ = ("op", "res", "ty", "args", "x", "dbg", "text", "fn", "block")

    def __repr__(self):
        return self.text


class Func:
    def __init__(self, name, params, ret):
        self.name, self.params, self.ret = name, params, ret     # params: [(type, name, attrs)]
        self.blocks, self.order = {}, []
        self.file, self.line = None, None


class Module:
    def __init__(self):
        self.types = Types()
        self.funcs, self.globals, self.decl = {}, {}, {}
        self.locs, self.scopes, self.files = {}, {}, {}

    def where(self, inst):
        d = self.locs.get(inst.dbg) if inst is not None else None
        if d is None:
            return inst.fn.name if inst is not None else "?"
        line, scope = d
        f = None
        while scope is not None and f is None:
            sc = self.scopes.get(scope)
            if sc is None:
                break
            f, scope = sc
        return "%s:%d" % (self.files.get(f, "?"), line)


_VAL = re.compile(r'(%"[^"]*"|%[-\w.$]+|@"[^"]*"|@[-\w.$]+|-?\d+\.\d+e[+-]\d+|0x[0-9A-FKLMHR]+|-?\d+|true|false|null|'
                  r'undef|poison|zeroinitializer)')
ATTR = re.compile(r'\s*(noundef|nonnull|zeroext|signext|noalias|nocapture|readonly|writeonly|returned|immarg|'
                  r'inreg|nofree|dead_on_unwind|writable|range\([^)]*\)|align \d+|dereferenceable\(\d+\)|'
                  r'dereferenceable_or_null\(\d+\)|allocalign|allocptr|captures\([^)]*\)|readnone)')


class Parser:
    def __init__(self, text):
        self.m = Module()
        self.T = self.m.types
        self.text = text

    def skip_attrs(self, s, i):
        sret = None
        while True:
            m = ATTR.match(s, i)
            if m:
                i = m.end()
                continue
            m = re.compile(r"\s*(sret|byval|byref|elementtype)\(").match(s, i)
            if m:
                t, j = self.T.parse(s, m.end())
                if m.group(1) != "elementtype":
                    sret = (m.group(1), t)
                i = j + 1
                continue
            return i, sret

    def value(self, s, i, ty):
        while s[i] == " ":
            i += 1
        if s.startswith("getelementptr", i):
            m = re.compile(r"getelementptr (inbounds )?(nuw )?\(").match(s, i)
            t, j = self.T.parse(s, m.end())
            args = []
            while s[j] == "," or s[j] == " ":
                j += 1
                if s[j] in ", ":
                    continue
                at, j = self.T.parse(s, j)
                j, _ = self.skip_attrs(s, j)
                v, j = self.value(s, j, at)
                args.append(v)
            return ("gep", t, args), j + 1
        if s.startswith("inttoptr (", i):
            (t, v, _), j = self.tv(s, i + 10)
            return ("addr", v), s.index(")", j) + 1
        if s.startswith("blockaddress", i) or s.startswith("ptrtoint", i):
            raise AnalysisError("constant expression %r" % s[i:i + 60])
        m = _VAL.match(s, i)
        if not m:
            raise AnalysisError("value %r" % s[i:i + 60])
        v = m.group(1)
        if v[0] == "%":
            r = ("reg", v[1:])
        elif v[0] == "@":
            r = ("glob", v[1:].strip('"'))
        elif v in ("true", "false"):
            r = ("int", int(v == "true"), ("i", 1))
        elif v == "null":
            r = ("null",)
        elif v in ("undef", "poison"):
            r = ("undef", ty)
        elif v == "zeroinitializer":
            r = ("zero", ty)
        elif ty[0] == "f":
            if v.startswith("0x"):
                import struct
                r = ("float", struct.unpack(">d", bytes.fromhex(v[2:].rjust(16, "0")))[0]) if v[2] not in "KLMHR" \
                    else ("undef", ty)
            else:
                r = ("float", float(v))
        else:
            r = ("int", int(v), ty)
        return r, m.end()

    def tv(self, s, i):
        """typed value"""
        t, i = self.T.parse(s, i)
        i, sret = self.skip_attrs(s, i)
        v, i = self.value(s, i, t)
        return (t, v, sret), i

    def run(self):
        text = self.text
        fn = blk = None
        lines = text.split("\n")
        n = 0
        for m in re.finditer(r"^%(\"[^\"]*\"|[-\w.$]+) = type (.*)$", text, re.M):
            self.T.named[m.group(1)] = self.T.parse(m.group(2))[0]
        for m in re.finditer(r"^!(\d+) = (?:distinct )?!(\w+)\((.*)\)$", text, re.M):
            f = dict(re.findall(r'(\w+): (!?\w+|"[^"]*")', m.group(3)))
            if m.group(2) == "DILocation":
                self.m.locs[m.group(1)] = (int(f.get("line", 0)), f.get("scope", "!").lstrip("!"))
            elif m.group(2) in ("DISubprogram", "DILexicalBlock", "DILexicalBlockFile"):
                self.m.scopes[m.group(1)] = (f.get("file", "!").lstrip("!") if "file" in f else None,
                                             f.get("scope", "!").lstrip("!"))
            elif m.group(2) == "DIFile":
                fn_ = f["filename"].strip('"')
                self.m.files[m.group(1)] = fn_.replace(REPO + "/", "") if fn_.startswith(REPO) else fn_
        while n < len(lines):
            s = lines[n]
            n += 1
            if s.startswith("define "):
                m = re.search(r"@(\"[^\"]*\"|[-\w.$]+)\(", s)
                name = m.group(1).strip('"')
                params, i = [], m.end()
                while s[i] != ")":
                    if s[i] in ", ":
                        i += 1
                        continue
                    if s.startswith("...", i):
                        i += 3
                        continue
                    t, i = self.T.parse(s, i)
                    i, sret = self.skip_attrs(s, i)
                    pm = re.compile(r"\s*%(\"[^\"]*\"|[-\w.$]+)").match(s, i)
                    params.append((t, pm.group(1), sret))
                    i = pm.end()
                head = s[:m.start()]
                ret = None
                for tok in re.finditer(r"(void|ptr|i\d+|double|float|\{.*\}|\[.*\]|%[-\w.\"]+)\s*$", head):
                    ret = tok.group(1)
                fn = Func(name, params, ret)
                dm = re.search(r"!dbg !(\d+) \{", s)
                fn.dbg = dm.group(1) if dm else None
                self.m.funcs[name] = fn
                fn.internal = "internal" in head or "linkonce" in head
                blk = None
                continue
            if fn is not None:
                if s.startswith("}"):
                    fn = None
                    continue
                m = re.match(r'("[^"]*"|[-\w.$]+):', s)
                if m:
                    blk = m.group(1)
                    fn.blocks[blk] = []
                    fn.order.append(blk)
                    continue
                if not s.strip() or s.lstrip().startswith(";"):
                    continue
                if s.lstrip().startswith("switch") and "]" not in s:
                    while "]" not in lines[n]:
                        s += " " + lines[n].strip()
                        n += 1
                    s += " " + lines[n].strip()
                    n += 1
                if blk is None:
                    blk = str(len(fn.params))
                    fn.blocks[blk] = []
                    fn.order.append(blk)
                inst = self.inst(s.strip())
                if inst is not None:
                    inst.fn, inst.block = fn, blk
                    fn.blocks[blk].append(inst)
                continue
            m = re.match(r"@(\"[^\"]*\"|[-\w.$]+) = (.*)$", s)
            if m:
                self.glob(m.group(1).strip('"'), m.group(2))
                continue
            m = re.match(r"declare .*@(\"[^\"]*\"|[-\w.$]+)\(", s)
            if m:
                self.m.decl[m.group(1).strip('"')] = s
        return self.m

    def glob(self, name, s):
        m = re.search(r"\balias .*@(\"[^\"]*\"|[-\w.$]+)", s)
        if m:
            self.m.globals[name] = ("alias", m.group(1).strip('"'))
            return
        m = re.search(r"\b(constant|global) ", s)
        if not m or "external " in s[:m.start()]:
            self.m.globals[name] = ("extern",)
            return
        t, i = self.T.parse(s, m.end())
        rest = s[i:].strip()
        sm = re.match(r'c"((?:[^"])*)"', rest)
        if sm:
            raw = re.sub(r"\\([0-9A-F]{2})", lambda x: chr(int(x.group(1), 16)), sm.group(1))
            self.m.globals[name] = ("data", t, [ord(c) for c in raw], m.group(1))
        else:
            self.m.globals[name] = ("init", t, rest, m.group(1))

    def inst(self, s):
        I = Inst()
        I.text = re.sub(r",? ![\w.]+ !\d+", "", s)
        dm = re.search(r"!dbg !(\d+)", s)
        I.dbg = dm.group(1) if dm else None
        s = re.sub(r"(, ![\w.]+ !\d+)+$", "", s)
        I.res = None
        m = re.match(r'%("[^"]*"|[-\w.$]+) = ', s)
        if m:
            I.res = m.group(1)
            s = s[m.end():]
        s = re.sub(r"^(tail |musttail |notail )", "", s)
        I.op = s.split(" ", 1)[0]
        I.args, I.x, I.ty = [], None, None
        rest = s[len(I.op):].strip() if len(s) > len(I.op) else ""
        o = I.op
        T = self.T
        if o in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "sdiv", "urem", "srem",
                 "fadd", "fsub", "fmul", "fdiv", "frem"):
            I.x = re.match(r"((?:nsw|nuw|exact|disjoint|fast|nnan|ninf|nsz|contract|reassoc|arcp|afn) )*", rest).group(0)
            rest = rest[len(I.x):]
            I.ty, i = T.parse(rest)
            a, i = self.value(rest, i, I.ty)
            b, i = self.value(rest, i + 1, I.ty)
            I.args = [a, b]
        elif o in ("icmp", "fcmp"):
            rest = re.sub(r"^(samesign |fast |nnan |ninf |nsz )*", "", rest)
            I.x, rest = rest.split(" ", 1)
            I.ty, i = T.parse(rest)
            a, i = self.value(rest, i, I.ty)
            b, i = self.value(rest, i + 1, I.ty)
            I.args = [a, b]
        elif o in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "uitofp", "sitofp", "fptoui", "fptosi",
                   "fpext", "fptrunc", "freeze", "fneg"):
            rest = re.sub(r"^((nneg|nuw|nsw|fast) )*", "", rest)
            (t, v, _), i = self.tv(rest, 0)
            I.x, I.args = t, [v]
            I.ty = T.parse(rest, i + 4)[0] if rest[i:].startswith(" to ") else t
        elif o == "load":
            rest = re.sub(r"^(volatile|atomic) ", lambda m: setattr(I, "x", m.group(1)) or "", rest)
            I.ty, i = T.parse(rest)
            (t, v, _), i = self.tv(rest, i + 1)
            I.args = [v]
        elif o == "store":
            rest = re.sub(r"^(volatile|atomic) ", lambda m: setattr(I, "x", m.group(1)) or "", rest)
            (t, v, _), i = self.tv(rest, 0)
            (_, p, _), i = self.tv(rest, i + 1)
            I.ty, I.args = t, [v, p]
        elif o == "getelementptr":
            rest = re.sub(r"^(inbounds |nuw |nusw )*", "", rest)
            I.ty, i = T.parse(rest)
            while i < len(rest) and rest[i] == ",":
                (t, v, _), i = self.tv(rest, i + 1)
                I.args.append((t, v))
        elif o == "alloca":
            I.ty, i = T.parse(rest)
            I.x = 1
            if rest[i:].startswith(", i"):
                (t, v, _), i = self.tv(rest, i + 1)
                I.x = v
        elif o == "phi":
            I.ty, i = T.parse(rest)
            for m in re.finditer(r"\[ (.*?), %(\"[^\"]*\"|[-\w.$]+) \]", rest[i:]):
                I.args.append((self.value(m.group(1), 0, I.ty)[0], m.group(2)))
        elif o == "br":
            if rest.startswith("label"):
                I.args = [re.match(r'label %("[^"]*"|[-\w.$]+)', rest).group(1)]
            else:
                (t, v, _), i = self.tv(rest, 0)
                I.x = v
                I.args = re.findall(r'label %("[^"]*"|[-\w.$]+)', rest[i:])
        elif o == "switch":
            (t, v, _), i = self.tv(rest, 0)
            I.x = v
            I.args = [re.search(r'label %("[^"]*"|[-\w.$]+)', rest[i:]).group(1),
                      [(int(a), b) for a, b in re.findall(r'i\d+ (-?\d+), label %("[^"]*"|[-\w.$]+)', rest)]]
        elif o == "ret":
            if rest.startswith("void"):
                I.args = []
            else:
                (t, v, _), i = self.tv(rest, 0)
                I.ty, I.args = t, [v]
        elif o == "select":
            (_, c, _), i = self.tv(rest, 0)
            (I.ty, a, _), i = self.tv(rest, i + 1)
            (_, b, _), i = self.tv(rest, i + 1)
            I.args = [c, a, b]
        elif o == "call":
            m = re.search(r"(@(\"[^\"]*\"|[-\w.$]+)|%(\"[^\"]*\"|[-\w.$]+))\(", rest)
            # the callee is the first @name( that follows the return type
            if not m:
                if "asm" in rest:
                    I.x = ("asm",)
                    return I
                raise AnalysisError("call %r" % s)
            head = rest[:m.start()]
            head = re.sub(r"\(.*\)\s*$", "", head.strip()).strip()
            hm = re.search(r"(void|ptr|i\d+|double|float|x86_fp80|\{.*\}|\[.*\]|%[-\w.]+|%\"[^\"]*\")$", head)
            I.ty = T.parse(hm.group(1))[0]
            I.x = ("glob", m.group(2).strip('"')) if m.group(2) else ("reg", m.group(3))
            i = m.end()
            while rest[i] != ")":
                if rest[i] in ", ":
                    i += 1
                    continue
                if rest.startswith("metadata", i):
                    return None
                tv, i = self.tv(rest, i)
                I.args.append(tv)
        elif o in ("extractvalue",):
            (t, v, _), i = self.tv(rest, 0)
            I.ty, I.args, I.x = t, [v], [int(k) for k in re.findall(r", (\d+)", rest[i:])]
        elif o == "insertvalue":
            (t, v, _), i = self.tv(rest, 0)
            (_, w, _), i = self.tv(rest, i + 1)
            I.ty, I.args, I.x = t, [v, w], [int(k) for k in re.findall(r", (\d+)", rest[i:])]
        elif o in ("unreachable", "fence"):
            pass
        else:
            I.op, I.x = "unsupported", o
        return I


def tool(*names):
    for n in names:
        p = shutil.which(n)
        if p:
            return p
    raise AnalysisError("no %s" % names[0])


def compile(path, cxx=False, defs=(), passes="sroa,mem2reg", flags=("-O0", "-Xclang", "-disable-O0-optnone"),
            optflags=()):
    """parse /repo/<path>"""
    src = os.path.join(REPO, path)
    d = tempfile.mkdtemp(prefix="llir")
    try:
        ll, ol = os.path.join(d, "a.ll"), os.path.join(d, "o.ll")
        cmd = [tool("clang++", "clang++-18") if cxx else tool("clang", "clang-18"),
               "-std=gnu++11" if cxx else "-std=gnu11"] + list(flags) + [
               "-fno-discard-value-names", "-gline-tables-only", "-w", "-S", "-emit-llvm", src, "-o", ll] + list(defs)
        if cxx:
            cmd += ["-fno-exceptions", "-fno-rtti"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            raise ElabError("%s does not compile: %s" % (path, r.stderr.decode()[:400]))
        r = subprocess.run([tool("opt", "opt-18"), "-S", "-passes=" + passes] + list(optflags) + [ll, "-o", ol],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            raise AnalysisError("opt: " + r.stderr.decode()[:400])
        return Parser(open(ol).read()).run()
    finally:
        shutil.rmtree(d)


def demangle(names):
    names = list(names)
    r = subprocess.run([tool("llvm-cxxfilt", "llvm-cxxfilt-18", "c++filt")], input="\n".join(names).encode(),
                       stdout=subprocess.PIPE)
    return dict(zip(names, r.stdout.decode().split("\n")))
