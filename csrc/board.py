"""The board software's register accesses and image packing."""
import re

import llir
from bits import Ev, Frame, K, Lin, NULL, Obj, P, Stop, U, W
from lib import AnalysisError
from stl import S, V, get

SRC = "software/src/"
_mods = {}


def mod(name):
    if name not in _mods:
        _mods[name] = llir.compile(SRC + name + ".cpp", True)
    return _mods[name]


def word(tag, n):
    return W((tag, i) for i in range(n))


def ev_for(rep, *names):
    ev = Ev([mod(n) for n in names])
    ev.maps = []
    ev.roots = []

    def mmap(fr, s, a):
        o = Obj("mmio", "map%d" % len(ev.maps))
        ev.maps.append((o, a[1], a[2]))
        return P(o, 0)
    ev.externs = {r"MMapHandler::~?MMapHandler\(": lambda fr, s, a: None, r"MMapHandler::mmap\(": mmap}

    def read(ev, o, off, n, where):
        i = ev.reads
        ev.reads += 1
        ev.events.append(("read", o, off, n, None, where, i))
        return W(("R", off, i, b) for b in range(8 * n))
    ev.mmio_read = read
    return ev


def new(ev, cls, args):
    this = P(Obj("mem", cls))
    ev.roots.append(this)
    ev.call(ev.method("%s::%s" % (cls, cls)), [this] + args)
    return this


def chk(rep, rule, ok, construct, detail=""):
    rep.check(bool(ok), rule, construct, str(detail))


def count(rep, ev):
    rep.stats["functions"] = rep.stats.get("functions", 0) + len(ev.reached)
    rep.stats["accesses"] = rep.stats.get("accesses", 0) + len(ev.events)


def meth(ev, this, name, args=()):
    """events and result of one method call"""
    ev.events, ev.facts = [], {}
    r = ev.call(ev.method(name), [this] + list(args))
    return ev.events, r[1]


def fmt(evs):
    return "; ".join("%s %s%s" % (e[0], hex(e[2]) if isinstance(e[2], int) else e[2],
                                  "" if e[4] is None else " := %r" % (e[4],)) for e in evs) or "none"


def con(f, fn):
    return "%s%s.cpp:%s" % (SRC, f, fn)


# ---- the core's register port ---------------------------------------------------------------
def core(rep, bd):
    ev = ev_for(rep, "core_axi_lite")
    F = "core_axi_lite"
    base = word("base", 32)
    this = new(ev, "CoreAXILite", [base, K(bd, 8)])
    c = con(F, "CoreAXILite")
    chk(rep, "mapping", len(ev.maps) == 1 and ev.maps[0][1] == base, c, "the mapped address is not the base address "
              "given: %r" % ([m[1] for m in ev.maps],))
    if len(ev.maps) != 1:
        return
    o, _, length = ev.maps[0]
    top = [0]

    def note(evs):
        for e in evs:
            if isinstance(e[2], int):
                top[0] = max(top[0], e[2] + e[3])

    def run(name, args=()):
        evs, r = meth(ev, this, "CoreAXILite::" + name, args)
        note(evs)
        count(rep, ev)
        return list(evs), r

    def reads(evs):
        return [(e[2], e[3]) for e in evs if e[0] == "read"]

    # getters
    for name, off, lo, n in (("get_width", 0x2000, 16, 16), ("get_height", 0x2000, 0, 16),
                             ("get_allowed_cycles", 0x2004, 0, 32)):
        evs, r = run(name)
        ok = evs and all(e[0] == "read" and e[2] == off and e[3] == 4 for e in evs)
        idx = {b[2] for b in r.bits if isinstance(b, tuple)} if isinstance(r, W) else set()
        ok = ok and isinstance(r, W) and len(idx) == 1 and \
            r == W(("R", off, list(idx)[0], lo + i) for i in range(n))
        chk(rep, "read-field", ok, con(F, name), "returns %r after %s; expected bits %d..%d of register %#x"
                  % (r, fmt(evs), lo, lo + n - 1, off))
    # setters
    for name, lo in (("set_width", 16), ("set_height", 0)):
        x = word("x", 16)
        evs, r = run(name, [x])
        w = [e for e in evs if e[0] == "write"]
        rd = [e for e in evs if e[0] == "read"]
        ok = len(w) == 1 and evs[-1][0] == "write" and w[0][2] == 0x2000 and w[0][3] == 4 and \
            all(e[2] == 0x2000 for e in rd) and isinstance(w[0][4], W)
        if ok:
            v = w[0][4].bits
            keep = v[:16] if lo else v[16:]
            idx = {b[2] for b in keep if isinstance(b, tuple) and b[0] == "R"}
            ok = v[lo:lo + 16] == x.bits and len(idx) == 1 and \
                keep == tuple(("R", 0x2000, list(idx)[0], (0 if lo else 16) + i) for i in range(16))
        chk(rep, "write-field", ok, con(F, name), "accesses %s; expected one write of register 0x2000 with the new "
                  "field in bits %d..%d and the other half as read" % (fmt(evs), lo, lo + 15))
    x = word("x", 32)
    evs, r = run("set_allowed_cycles", [x])
    chk(rep, "write-field", len(evs) == 1 and evs[0][0] == "write" and evs[0][2:5] == (0x2004, 4, x),
              con(F, "set_allowed_cycles"), "accesses %s" % fmt(evs))
    # the code table, per code length
    for L in range(1, 17):
        def read(ev, o, off, n, where, L=L):
            ev.events.append(("read", o, off, n, None, where))
            i = off - 0x1000
            if n != 4 or i % 4 or not 0 <= i < 8 * (bd + 1):
                return W(("R", off, 0, b) for b in range(8 * n))
            c, half = divmod(i // 4, 2)
            sh = 0 if c == 16 else c
            e = [0] * 64
            for j in range(L):
                e[sh + j] = ("code", c, j)
            for j in range(5):
                e[16 + bd + j] = L >> j & 1
            return W(e[32 * half:32 * half + 32])
        save, ev.mmio_read = ev.mmio_read, read
        out = P(Obj("mem", "result"))
        ev.events = []
        ev.faults.clear()
        try:
            ev.call(ev.method("CoreAXILite::get_ssss"), [out, this])
            v = get(None, out)
        except Stop:
            v = None
        note(ev.events)
        count(rep, ev)
        ev.mmio_read = save
        cc = con(F, "get_ssss")
        if v is None:
            chk(rep, "table", False, cc, "bit depth %d: does not return (%s)" % (bd, "; ".join(ev.faults)))
            break
        bad = None
        if len(v.val) != bd + 1:
            bad = "%d entries, the table has %d" % (len(v.val), bd + 1)
        for c, s in enumerate(v.val[:bd + 1]):
            # the class, the code and the length, in this order
            t = "".join(p if isinstance(p, str) else "<code>" if p[0] == "num" and isinstance(p[1], W) and
                        p[1].bits[:L] == tuple(("code", c, j) for j in range(L)) and not any(p[1].bits[L:])
                        else "<%r>" % (p[1],) for p in s.parts)
            if not re.match(r"\D*%d\D*<code>\D*%d\D*$" % (c, L), t):
                bad = bad or "class %d with a code of %d bits is shown as %r" % (c, L, t)
        chk(rep, "table", bad is None, cc, "bit depth %d: %s" % (bd, bad))
        if any(e[0] != "read" for e in ev.events):
            chk(rep, "table", False, cc, "writes registers: %s" % fmt(ev.events))
        if bad:
            break
    # debug counters
    ev.facts = {}
    ev.events = []
    out = P(Obj("mem", "result"))
    ev.call(ev.method("CoreAXILite::get_debug"), [out, this])
    note(ev.events)
    v = get(None, out)
    names = ["valid_in=0", "valid_in=1", "valid_out=0", "valid_out=1", "nready=1", "nready=0", "busy_in=1", "busy_in=0"]
    seen = {}
    for s in v.val:
        nums = [p for p in s.parts if not isinstance(p, str)]
        if nums:
            t = "".join(p for p in s.parts if isinstance(p, str))
            w = nums[0][1]
            offs = {b[1] for b in w.bits if isinstance(b, tuple)} if isinstance(w, W) else set()
            whole = isinstance(w, W) and [b[-1] for b in w.bits if isinstance(b, tuple)] == list(range(32))
            for i, nm in enumerate(names):
                if nm in t:
                    seen.setdefault(i, []).append(whole and offs == {0x4000 + 4 * i})
    chk(rep, "debug", all(seen.get(i) == [True] for i in range(8)), con(F, "get_debug"),
              "counters %s are not shown with the register that counts them"
              % [names[i] for i in range(8) if seen.get(i) != [True]])
    chk(rep, "debug", all(e[0] == "read" for e in ev.events), con(F, "get_debug"), "writes registers")
    n = length.const if isinstance(length, W) else None
    chk(rep, "mapping", n is not None and n >= top[0], c, "%s bytes are mapped, accesses reach %#x" % (n, top[0]))


def core_refuses(rep):
    for bd in (0, 1, 17, 255):
        ev = ev_for(rep, "core_axi_lite")
        try:
            new(ev, "CoreAXILite", [word("base", 32), K(bd, 8)])
            ok = False
        except Stop:
            ok = True
        chk(rep, "refused", ok, con("core_axi_lite", "CoreAXILite"), "a bit depth of %d is accepted" % bd)


# ---- the DMA engine -----------------------------------------------------------------------------
STATUS = [(0, 1, "halted"), (0, 0, "running"), (1, 1, "idle"), (3, 1, "sgincld"), (4, 1, "dmainterr"),
          (5, 1, "dmaslverr"), (6, 1, "dmadecerr"), (8, 1, "sginterr"), (9, 1, "sgslverr"), (10, 1, "sgdecerr"),
          (12, 1, "ioc_irq"), (13, 1, "dly_irq"), (14, 1, "err_irq")]


def dma(rep):
    F = "xilinx_dma"
    ev = ev_for(rep, F)
    base = word("base", 32)
    this = new(ev, "XilinxDMA", [base])
    chk(rep, "mapping", len(ev.maps) == 1 and ev.maps[0][1] == base, con(F, "XilinxDMA"), "the mapped address is not "
              "the base address given")
    if len(ev.maps) != 1:
        return
    top = 0
    a, b = word("a", 32), word("b", 32)

    def k(v):
        return K(v, 32)
    # the registers of AXI DMA (PG021), direct register mode
    spec = {"reset_dma": ([], [{(0x30, k(4)), (0x00, k(4))}]),
            "halt_dma": ([], [{(0x30, k(0)), (0x00, k(0))}]),
            "start_dma": ([], [{(0x30, k(0xf001)), (0x00, k(0xf001))}]),
            "set_dma_src_dist": ([a, b], [{(0x18, a), (0x48, b)}]),
            # the receiving side first, or its first beats could be refused: either order ends with both started
            "set_dma_transfer_len": ([a, b], [{(0x58, a), (0x28, b)}])}
    for name, (args, want) in spec.items():
        evs, _ = meth(ev, this, "XilinxDMA::" + name, args)
        count(rep, ev)
        top = max([top] + [e[2] + e[3] for e in evs if isinstance(e[2], int)])
        got = {(e[2], e[4]) for e in evs if e[0] == "write"}
        ok = all(e[0] == "write" and e[3] == 4 for e in evs) and len(evs) == len(got) and got in want
        chk(rep, "registers", ok, con(F, name), "accesses %s; expected %s" % (fmt(evs), "; ".join(
            "%#x := %r" % x for x in sorted(want[0], key=lambda x: x[0]))))
    for name, off in (("dma_mm2s_sync", 0x04), ("dma_s2mm_sync", 0x34)):
        ev.waits = []
        evs, _ = meth(ev, this, "XilinxDMA::" + name)
        count(rep, ev)
        c = con(F, name)
        if len(ev.waits) != 1:
            chk(rep, "waits", False, c, "does not wait")
            continue
        for events, facts in ev.waits[0][1]:
            rd = [e for e in events if e[0] == "read"]
            ok = len(rd) == len(events) and all(e[2] == off and e[3] == 4 for e in events)
            got = {}
            for kk, v in facts.items():
                got.setdefault(kk[2], {})[kk[3]] = v
            last = rd[-1][6] if rd else None
            ok2 = got.get(last, {}).get(12) == 1 and got[last].get(1) == 1
            chk(rep, "waits", ok and ok2, c, "can return with status bits %s after %s" % (got.get(last), fmt(events)))
        top = max(top, off + 4)
    for name, off in (("dma_mm2s_status", 0x04), ("dma_s2mm_status", 0x34)):
        out = P(Obj("mem", "result"))
        ev.events, ev.facts = [], {}
        ev.call(ev.method("XilinxDMA::" + name), [out, this])
        count(rep, ev)
        v = get(None, out)
        c = con(F, name)
        rd = [e for e in ev.events]
        chk(rep, "status-read", len(rd) == 1 and rd[0][0] == "read" and rd[0][2] == off, c, "accesses %s" % fmt(rd))
        got = set()
        for e in v.val:
            g = []
            while isinstance(e, tuple) and e[0] == "if":
                g.append((e[1][3] if e[1][0] == "R" and e[1][1] == off else None, e[2]))
                e = e[3]
            t = "".join(p for p in e.parts if isinstance(p, str)).lower().strip()
            got.add((tuple(sorted(g, key=str)), t))
        want = {(((b, p),), t) for b, p, t in STATUS}
        chk(rep, "status", got == want, c, "shown wrongly: %s; missing: %s" % (sorted(got - want, key=str),
                                                                               sorted(want - got, key=str)))
    n = ev.maps[0][2].const
    chk(rep, "mapping", n is not None and n >= max(top, 0x5c), con(F, "XilinxDMA"), "%s bytes are mapped, accesses "
              "reach %#x" % (n, top))


# ---- mapping memory -------------------------------------------------------------------------------
def mapping(rep):
    F = "mmap_handler"
    ev = Ev([mod(F)])
    calls = []
    fd = word("fd", 32)
    page = P(Obj("mmio", "page"))
    ev.externs = {r"open(64)?$": lambda fr, s, a: calls.append(("open", a)) or fd,
                  r"mmap(64)?$": lambda fr, s, a: calls.append(("mmap", a)) or page,
                  r"close$": lambda fr, s, a: calls.append(("close", a)) or K(0, 32)}
    this = P(Obj("mem", "handler"))
    ev.roots = [this]
    ev.call(ev.method("MMapHandler::MMapHandler"), [this])
    from stl import cstr
    ok = len(calls) == 1 and calls[0][0] == "open" and cstr(None, calls[0][1][0]) == "/dev/mem" and \
        (calls[0][1][1].const or 0) & 0o3 == 2 and (calls[0][1][1].const or 0) & 0o4010000 == 0o4010000
    chk(rep, "open", ok, con(F, "MMapHandler"), "memory is not opened for synchronous reading and writing: %s" % calls)
    base, n = word("base", 32), word("len", 32)
    del calls[:]
    r = ev.call(ev.method("MMapHandler::mmap"), [this, base, n])[1]
    ok = len(calls) == 1 and calls[0][0] == "mmap"
    if ok:
        a = calls[0][1]
        ok = a[0] == NULL and a[1] == W(n.bits + (0,) * 32) and a[2].const == 3 and (a[3].const or 0) & 0x33 == 1 and \
            a[4] == fd and a[5] == W(base.bits + (0,) * 32)
    chk(rep, "map", ok and r == page, con(F, "mmap"), "mmap(%s) and returns %r; expected the address as an unsigned "
              "number, shared, for reading and writing" % (calls, r))
    count(rep, ev)


# ---- packing the image --------------------------------------------------------------------------
PIXELS = 4096 * 3072


def pack(rep, width):
    """the image is handed to the core with the samples where its input word has them"""
    F, name = "xilinx_test", "re_order_set_raw12_%dbits" % width
    ev = ev_for(rep, F)
    src, dst = Obj("mmio", "raw12"), Obj("mmio", "memory")

    def read(ev, o, off, n, where):
        ev.events.append(("read", o, off, n, None, where))
        fr = off if isinstance(off, Lin) else Lin(off, {}, 64)
        return W(("raw", Lin(fr.c0 + b // 8, dict(fr.cs), 64), b % 8) for b in range(8 * n))
    ev.mmio_read = read
    ev.roots = []
    m, f = ev.method(name)
    args = [P(dst)] + [P(src), word("length", 32)]
    ev.call((m, f), args)
    count(rep, ev)
    c = con(F, name)
    ranges = ev.ranges
    per = {32: 2, 64: 4}[width]
    nb = width // 8
    fields = {64: (52, 40, 28, 16), 32: (20, 8)}[width]
    covered = []
    bad = None

    def rng(l):
        lo = hi = l.c0
        for k, cc in l.cs:
            e = cc * (ranges[k] - 1)
            lo, hi = lo + min(0, e), hi + max(0, e)
        return lo, hi
    for e in ev.events:
        off = e[2] if isinstance(e[2], Lin) else Lin(e[2], {}, 64)
        lo, hi = rng(off)
        if e[0] == "read":
            if e[1] is not src or lo < 0 or hi + e[3] > PIXELS * 3 // 2:
                bad = bad or "reads bytes %d..%d of the image of %d (%s)" % (lo, hi + e[3] - 1, PIXELS * 3 // 2, e[5])
            continue
        if e[1] is not dst or e[3] * 8 != width or off.c0 % nb or any(x % nb for _, x in off.cs):
            bad = bad or "writes %d bytes at %r (%s)" % (e[3], e[2], e[5])
            continue
        # word number w = off / nb; its samples are p = w * per + j; a pair of samples is three bytes
        want = [0] * width
        for j, at in enumerate(fields):
            by = Lin(off.c0 // nb * per * 3 // 2 + (j // 2) * 3, {k: x // nb * per * 3 // 2 for k, x in off.cs}, 64)

            def raw(byte, bit, by=by):
                return ("raw", Lin(by.c0 + byte, dict(by.cs), 64), bit)
            if j % 2 == 0:
                s = [raw(1, 4 + i) for i in range(4)] + [raw(0, i) for i in range(8)]
            else:
                s = [raw(2, i) for i in range(8)] + [raw(1, i) for i in range(4)]
            want[at:at + 12] = s
        if e[4] != W(want):
            d = [i for i in range(width) if not isinstance(e[4], W) or e[4].bits[i] != want[i]]
            bad = bad or "word at %r: bits %s.. hold the wrong sample bits: %r (%s)" % (e[2], d[:4], e[4], e[5])
        covered.append(off)
    chk(rep, "packing", bad is None, c, bad)
    # every word exactly once: the writes' (offset, strides) tile 0 .. PIXELS/per-1
    total = 0
    tiles = set()
    for off in covered:
        n = 1
        for k, _ in off.cs:
            n *= ranges[k]
        total += n
        tiles.add(off)
    ok = total == PIXELS // per and tiled(covered, ranges, nb, PIXELS // per)
    chk(rep, "coverage", ok, c, "%d words are written, the image has %d" % (total, PIXELS // per))
    wrap(rep, ev, c)


def tiled(offs, ranges, nb, total):
    """mixed-radix cover of 0..total-1 in units of nb: residues are constants below the smallest stride"""
    strides = {tuple((k, x // nb) for k, x in o.cs) for o in offs}
    if len(strides) != 1:
        return False
    st = sorted(strides.pop(), key=lambda kx: kx[1])
    unit = len(offs)
    if sorted(o.c0 // nb for o in offs) != list(range(unit)):
        return False
    for k, x in st:
        if x != unit:
            return False
        unit *= ranges[k]
    return unit == total


def wrap(rep, ev, c):
    bad = None
    for l, where in ev.obligations:
        lo = hi = l.c0
        try:
            for k, cc in l.cs:
                e = cc * (ev.ranges[k] - 1)
                lo, hi = lo + min(0, e), hi + max(0, e)
        except (KeyError, TypeError):
            raise AnalysisError("unbounded loop value at %s" % where)
        n = l.n
        if n < 0:
            ok = lo >= 0
        else:
            ok = -(1 << (n - 1)) <= lo and hi < 1 << (n - 1)
        if not ok:
            bad = bad or "value %r can leave its %d bits (%d..%d) at %s" % (l, n, lo, hi, where)
    chk(rep, "no-overflow", bad is None, c, bad)


def clear(rep):
    """the destination memory is cleared whole and nothing beyond the mapped part is touched"""
    F = "xilinx_test"
    ev = ev_for(rep, F)
    dst = Obj("mmio", "memory")
    ev.call(ev.method("zero_dest"), [P(dst)])
    count(rep, ev)
    c = con(F, "zero_dest")
    ws = [e for e in ev.events if e[0] == "write"]
    fills = [e for e in ev.events if e[0] == "fill"]
    if fills:
        ok = len(ev.events) == 1 and fills[0][2] == 0 and fills[0][3] == 0x2000000 and fills[0][4].const & 255 == 0
    else:
        n = ws[0][3] if ws else 1
        offs = [e[2] if isinstance(e[2], Lin) else Lin(e[2], {}, 64) for e in ws]
        ok = bool(ws) and all(e[4].const == 0 and e[3] == n for e in ws) and len(ws) == len(ev.events) and \
            tiled(offs, ev.ranges, n, 0x2000000 // n)
    chk(rep, "coverage", ok, c, "does not clear exactly the mapped 0x2000000 bytes: %s" % fmt(ev.events[:4]))
    wrap(rep, ev, c)


# ---- the test program -----------------------------------------------------------------------------
def program(rep):
    """main(): the core and the DMA engine are set up before the transfer starts, with the buffers that were
    prepared; nothing is looked at before both directions are done"""
    from bits import Agg
    from stl import get
    F = "xilinx_test"
    ev = ev_for(rep, F)
    log = []

    def opaque(kind):
        def fn(fr, s, a):
            log.append((re.match(r"[\w:]+", s).group(0).split("::")[-1], list(a)))
            return kind(fr, s, a) if kind else None
        return fn

    def load(fr, s, a):
        n = get(fr, a[0])
        return Agg([P(Obj("mmio", "file %s" % "".join(map(str, n.parts)))), word("len%d" % len(log), 32)])
    e = {}
    ctor = r"(CoreAXILite|XilinxDMA)::(CoreAXILite|XilinxDMA)\("
    e[ctor] = opaque(None)
    e[r"(CoreAXILite|XilinxDMA)::~"] = lambda fr, s, a: None
    e[r"CoreAXILite::(get_width|get_height)\("] = opaque(lambda fr, s, a: word("r%d" % len(log), 16))
    e[r"CoreAXILite::get_allowed_cycles\("] = opaque(lambda fr, s, a: word("r%d" % len(log), 32))
    from stl import V

    def listing(fr, s, a):
        a[0].obj.cells[a[0].off] = (24, V(32))
    e[r"CoreAXILite::(get_ssss|get_debug)\(|XilinxDMA::dma_(s2mm|mm2s)_status\("] = opaque(listing)
    e[r"(CoreAXILite|XilinxDMA)::\w+\("] = opaque(None)
    e[r"load_file\("] = opaque(load)
    e[r"(re_order_\w+|zero_dest|check_\w+|validate)\("] = opaque(None)
    e[r"(divisible_\d)\("] = opaque(lambda fr, s, a: word("d%d" % len(log), 32))
    e[r"(clear_mem_data|print_vector|mem_dump|initiate_timer|get_time)\("] = lambda fr, s, a: None
    e[r"clock_gettime|printf"] = lambda fr, s, a: K(0, 32)
    old = dict(ev.externs)
    ev.externs = dict(list(old.items()) + list(e.items()))
    argv = Obj("mem", "argv")
    for i in range(4):
        o = Obj("data", "argv%d" % i)
        o.val = [ord(c) for c in "arg%d" % i] + [0]
        argv.cells[8 * i] = (8, P(o))
    argv.size = 32
    m, f = ev.method("main")
    try:
        ev.call((m, f), [K(3, 32), P(argv)])
    except Stop:
        pass
    count(rep, ev)
    c = con(F, "main")
    names = [n for n, _ in log]

    def at(n):
        return names.index(n) if n in names else None

    def arg(n, i):
        return log[at(n)][1][i] if n in names else None
    once = ["reset_dma", "set_dma_src_dist", "start_dma", "set_dma_transfer_len", "dma_mm2s_sync", "dma_s2mm_sync",
            "zero_dest"]
    for n in once:
        chk(rep, "program", names.count(n) == 1, c, "%s is called %d times" % (n, names.count(n)))
    if any(n not in names for n in once):
        return
    packs = [i for i, n in enumerate(names) if n.startswith("re_order_set_raw12_")]
    chk(rep, "program", len(packs) == 1, c, "the image is packed %d times" % len(packs))
    if len(packs) != 1:
        return
    order = [("reset_dma", "set_dma_src_dist"), ("set_dma_src_dist", "set_dma_transfer_len"),
             ("start_dma", "set_dma_transfer_len"), ("zero_dest", "set_dma_transfer_len"),
             ("set_dma_transfer_len", "dma_mm2s_sync"), ("set_dma_transfer_len", "dma_s2mm_sync"),
             ("reset_dma", "start_dma")]
    if "halt_dma" in names:
        order += [("reset_dma", "halt_dma"), ("halt_dma", "start_dma")]
    for a, b in order:
        chk(rep, "program", at(a) < at(b), c, "%s comes after %s" % (a, b))
    chk(rep, "program", packs[0] < at("set_dma_transfer_len"), c, "the image is packed after the transfer starts")
    if any(n == "CoreAXILite" for n in names):
        for n in ("set_width", "set_height", "set_allowed_cycles"):
            chk(rep, "program", names.count(n) == 1 and at(n) < at("set_dma_transfer_len"), c,
                "%s is not called once before the transfer" % n)
        if "set_width" in names and "set_height" in names:
            w, h = arg("set_width", 1).const, arg("set_height", 1).const
            chk(rep, "program", (w, h) == (4096, 3072), c, "the frame size is set to %s x %s" % (w, h))
    for i, n in enumerate(names):
        if n.startswith("check_") or n == "validate":
            chk(rep, "program", i > at("dma_mm2s_sync") and i > at("dma_s2mm_sync"), c,
                "%s looks at the result before both directions are done" % n)
    # buffers
    by = {id(o): (b, n) for o, b, n in ev.maps}
    p = log[packs[0]][1]
    srcmap, dstmap = by.get(id(p[0].obj)), by.get(id(arg("zero_dest", 0).obj))
    chk(rep, "buffers", srcmap is not None and srcmap[0] == arg("set_dma_src_dist", 1), c,
        "the DMA engine does not read where the image was packed to")
    chk(rep, "buffers", dstmap is not None and dstmap[0] == arg("set_dma_src_dist", 2), c,
        "the DMA engine does not write where the result is looked for")
    chk(rep, "buffers", p[1].obj.name.endswith("arg1"), c, "the packed image is %s" % p[1].obj.name)
    width = int(re.search(r"(\d+)bits", names[packs[0]]).group(1))
    size = PIXELS // {64: 4, 32: 2}[width] * (width // 8)
    n = arg("set_dma_transfer_len", 2)
    chk(rep, "buffers", n.const == size, c, "the image sent has %s bytes, %d are packed" % (n.const, size))
    chk(rep, "buffers", srcmap is None or (srcmap[1].const or 0) >= size, c, "the source buffer is too small")
    chk(rep, "buffers", dstmap is None or dstmap[1].const == 0x2000000, c, "the destination buffer has another size "
        "than what is cleared")
    for i, nm in enumerate(names):
        if nm.startswith("check_") or nm == "validate":
            chk(rep, "buffers", by.get(id(log[i][1][0].obj)) == dstmap, c, "%s looks at another buffer" % nm)
