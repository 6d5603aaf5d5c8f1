"""Width converters and FIFO wrappers around the core."""
from lib import *
from stream import Explorer, Bytes


def words(word_, unit, n):
    """a word's units, most significant first"""
    return [word_[unit * i:unit * i + unit] for i in reversed(range(n))]


class Plain(Bytes):
    """no end flag: a continuous stream"""

    def __init__(self, rep, top, domain):
        Bytes.__init__(self, rep, top)
        self.domain = domain
        self.in_end = self.out_end = None


def b16_b64(rep):
    top = make("b16_b64", "B16B64")
    b = Plain(rep, top, "sync")
    b.unit, b.out_units = 16, 4
    b.produce = lambda env, ws, c: [ws[0]]
    b.run()


def b16_b40(rep):
    top = make("b16_b40", "B16B40")
    b = Plain(rep, top, "full")
    b.unit, b.out_units = 8, 5
    b.produce = lambda env, ws, c: words(ws[0], 8, 2)
    b.run()


def b64_b32_2(rep):
    top = make("b64_b32_2", "B64B32_2")
    b = Plain(rep, top, "full")
    b.unit, b.out_units = 24, 1
    b.produce = lambda env, ws, c: [ws[0][40:64], ws[0][16:40]]
    b.run()


def b64_b32(rep):
    top = make("b64_b32", "B64B32")
    b = Plain(rep, top, "sync")
    b.unit, b.out_units = 32, 1
    b.produce = lambda env, ws, c: words(ws[0], 32, 2)
    b.run()


def axihp_fifo(rep):
    """the burst FIFO: both thresholds against its depth, data and end bit through unchanged"""
    top = make("axihp_fifo", "AxiHPFifo")
    d = Design(top)
    rep.stat(d)
    W = cname(top)
    bbs = [b for b in d.bbs if b.kind == "SyncFIFO"]
    if len(bbs) != 1:
        raise AnalysisError("AxiHPFifo: expected one SyncFIFO, found %d" % len(bbs))
    bb = bbs[0]
    depth = bb.params["depth"]
    rep.check(bb.params["width"] >= 65 and bb.params["fwft"], "whole-entries", W, "the FIFO is too narrow")
    x, e = word("x", 64), (var("e"),)
    r, v = (var("r"),), (var("v"),)

    def ctx(level, entry, env):
        i = {id(bb.outs["level"]): const_word(level, bb.outs["level"].width),
             id(bb.outs["w_rdy"]): (int(level < depth),), id(bb.outs["r_rdy"]): (int(level > 0),),
             id(bb.outs["r_data"]): entry, id(top.data_in): x, id(top.end_in): e, id(top.valid_in): v,
             id(top.read): r}
        return Ctx(d, {}, i, env)
    env = Env()
    c = ctx(1, (0,) * bb.params["width"], env)
    entry = c.get(bb.ins["w_data"])
    rep.check(eqw(env, c.get(bb.ins["w_en"]), v) and eqw(env, c.get(bb.ins["r_en"]), r), "strobes", W,
              "write/read strobes are not the module's valid_in/read")
    for level in range(depth + 1):
        c = ctx(level, entry, env)
        one = [c.get(s)[0] for s in (top.writable, top.readable, top.valid_out, top.writable16, top.readable16)]
        rep.check(one[:3] == [int(level < depth), int(level > 0), int(level > 0)], "flags", W,
                  "at level %d the writable/readable/valid flags are %s" % (level, one[:3]))
        rep.check(one[3] in (0, 1) and (one[3] == 0 or level + 16 <= depth), "room-for-a-burst", W + ", writable16",
                  "room for a 16-word burst is announced at level %d of %d; %s" % (level, depth, d.where(top.writable16)))
        rep.check(level > 0 or one[3] == 1, "room-for-a-burst", W + ", writable16",
                  "no room is announced in an empty FIFO; " + d.where(top.writable16))
        rep.check(one[4] == int(level >= 16), "burst-available", W + ", readable16",
                  "at level %d a full burst is%s announced; %s" % (level, "" if one[4] == 1 else " not",
                                                                  d.where(top.readable16)))
        if level:
            rep.check(eqw(env, c.get(top.data_out), x) and eqw(env, c.get(top.end_out), e), "whole-entries", W,
                      "an entry does not come out as it went in; " + d.where(top.data_out))


def reverser(rep, n, sync):
    top = make("reverser", "Reverser", n, sync)
    d = Design(top)
    rep.stat(d)
    x = word("x", n)
    ds = d.drivers.get(id(top.data_out)) or []
    if not rep.check(all((b.domain is not None) == bool(sync) for b in ds), "reversed", cname(top), lambda: "data_out is "
                     "%s; %s" % ("not registered" if sync else "registered", d.where(top.data_out))):
        return
    for env, w in cases(lambda env: (Ctx(d, {id(top.data_out): word("old", n)}, {id(top.data_in): x}, env).next if sync else
                                     Ctx(d, {}, {id(top.data_in): x}, env).get)(top.data_out)):
        rep.check(eqw(env, w, tuple(reversed(x))), "reversed", cname(top), "data_out is %s" % bits_str(w))


def delayer(rep, n):
    """the output rises exactly n cycles after the input first does, and stays"""
    top = make("delayer", "Delayer", n)
    x = Explorer(rep, top, [top.out_sig])

    def moves(plain, gr):
        return [(i, True, {id(top.in_sig): (i,)}) for i in (0, 1)]

    def step(get, env, plain, gr, i):
        o = env.sub(get(top.out_sig)[0])
        if not rep.check(o == int(plain >= n), "exact-delay", cname(top), lambda: "the output is %r %d cycles "
                         "after the input rose, for a delay of %d; %s" % (o, plain, n, x.d.where(top.out_sig))):
            return None
        p = min(plain + 1, n + 3) if plain or i else 0
        return p, [], True
    x.run((0, []), moves, step)
