"""Buffering, gating, frame geometry and frame delimiting."""
from lib import *
from stages import cfg, Run, latency, need_latency
from stream import Explorer, Token


# ---- enclosures of the library FIFO ------------------------------------------------------
def bb_of(d, kinds=("SyncFIFOBuffered", "SyncFIFO")):
    got = [b for b in d.bbs if b.kind in kinds]
    if len(got) != 1:
        raise AnalysisError("expected one FIFO, found %d" % len(got))
    return got[0]


def enclosure(rep, d, bb, name, ins, outs, write, read, valid):
    """the FIFO stores each offered entry whole, hands it out field by field, pops on request"""
    inw = {id(s): word("in:%s%d" % (s.name, i), s.width) for i, s in enumerate(ins)}
    din = []

    def free(extra):
        inp = {id(s): word("free:%s" % s.name, s.width) for s in d.sigs.values()
               if id(s) not in d.drivers and id(s) not in d.bb_out}
        inp.update({id(s): word("bb:%s" % s.name, s.width) for s in bb.outs.values()})
        inp.update(inw)
        inp.update(extra)
        return inp

    def run(env):
        return Ctx(d, {}, free({}), env).get(bb.ins["w_data"])
    got = list(cases(run))
    if len(got) != 1:
        raise AnalysisError("%s: what is stored depends on control" % name)
    din = got[0][1]
    for i, (a, b) in enumerate(zip(ins, outs)):
        def run(env):
            return Ctx(d, {}, free({id(bb.outs["r_data"]): din}), env).get(b)
        for env, w in cases(run):
            rep.check(a.width == b.width and eqw(env, w, inw[id(a)]), "fields-kept", "%s, %s" % (name, b.name),
                      lambda: "after the FIFO, %s is %s instead of what %s was: %s; %s"
                      % (b.name, bits_str(w), a.name, bits_str(inw[id(a)]), d.where(b)))
    v = (var("strobe"),)
    for what, sig, src, cond in (("write strobe", bb.ins["w_en"], write, "w_rdy"),
                                 ("read strobe", bb.ins["r_en"], read, "r_rdy")):
        def run(env):
            c = Ctx(d, {}, free({id(src): v, id(bb.outs[cond]): (1,)}), env)
            return c.get(sig)
        for env, w in cases(run):
            rep.check(eqw(env, w, v), "strobes-kept", "%s, %s" % (name, what),
                      lambda: "the FIFO's %s is %s, not %s; %s" % (what, bits_str(w), src.name, d.where(sig)))

    def run(env):
        return Ctx(d, {}, free({id(bb.outs["r_rdy"]): v}), env).get(valid)
    for env, w in cases(run):
        rep.check(eqw(env, w, v), "strobes-kept", "%s, output valid" % name,
                  lambda: "%s is %s, not the FIFO's readable flag; %s" % (valid.name, bits_str(w), d.where(valid)))


def threshold(rep, d, bb, flag, name, most=4):
    """(smallest level from which on the flag is raised, delay in cycles); the flag is a function of
    the fill level alone"""
    level = bb.outs["level"]
    depth = bb.params["depth"]
    r = Run(d, [flag])

    def at(k, lv):
        def run(env):
            for c in r.go(env, k + 1, lambda t: {id(level): const_word(lv, level.width)} if t == 0 else {}):
                pass
            return c.get(flag)
        vals = {env.sub(w[0]) if w[0] not in (0, 1) else w[0] for env, w in cases(run)}
        return vals.pop() if len(vals) == 1 else None
    for k in range(most):
        if at(k, depth) == 1:
            break
    else:
        rep.fail("stop-flag", "%s, %s" % (name, flag.name), "the flag is not raised by a full buffer; "
                 + d.where(flag))
        return None
    t = depth
    while t > 0 and at(k, t - 1) == 1:
        t -= 1
    rep.count("levels-evaluated", depth - t + 1)
    ok = True
    for lv in range(min(t, 3)):
        ok &= rep.check(at(k, lv) == 0, "stop-flag", "%s, %s" % (name, flag.name),
                        lambda: "the flag is raised with %d of %d entries; %s" % (lv, depth, d.where(flag)))
    rep.check(t >= 1, "stop-flag", "%s, %s" % (name, flag.name), "the flag is always raised; " + d.where(flag))
    return t, k


def pipeline_fifo(rep, bd, ps, depth):
    """the groups still in the pipeline when the stop flag rises find room"""
    c = cfg(bit_depth=bd, pixels_per_cycle=ps, LJ92_fifo_depth=depth)
    top = make_cfg("lj92_pipeline_fifo", "LJ92PipelineFifo", c)
    d = Design(top)
    rep.stat(d)
    bb = bb_of(d)
    W = cname(top)
    enclosure(rep, d, bb, W, [top.enc_in, top.enc_in_ctr, top.in_end],
              [top.enc_out, top.enc_out_ctr, top.out_end], top.valid_in, top.latch_output, top.valid_out)
    tk = threshold(rep, d, bb, top.close_full, W)
    if not tk:
        return
    t, k = tk
    lat = 0
    from stages import stage_top
    for n in ("predictor", "difference", "normalize", "encode") + (("merge",) if ps > 1 else ()):
        st = stage_top(n, bd, ps)
        l = need_latency(rep, Design(st), st)
        if l is None:
            return
        lat += l
    cap = bb.params["depth"] - 1
    rep.check(t + k + lat <= cap, "room-for-in-flight", W + ", close_full",
              lambda: "the stop flag rises with %d of %d entries stored and is seen %d cycle(s) later; "
              "%d groups can still arrive from the pipeline, only %d fit; %s"
              % (t, depth, k, lat + k, cap - t, d.where(top.close_full)))
    rep.sample("bd=%d ps=%d depth=%d: stop at %d, delay %d, pipeline latency %d" % (bd, ps, depth, t, k, lat))


def piece_fifo(rep, bd, ps, conv, depth):
    """the pieces still written after the stop flag find room"""
    from stream import converter
    c = cfg(bit_depth=bd, pixels_per_cycle=ps, converter=conv, converter_fifo_depth=depth)
    top = make_cfg("converter_fifo", "ConverterFifo", c)
    d = Design(top)
    rep.stat(d)
    bb = bb_of(d)
    W = cname(top)
    enclosure(rep, d, bb, W, [top.enc_in, top.enc_in_ctr, top.in_end],
              [top.enc_out, top.enc_out_ctr, top.out_end], top.valid_in, top.latch_output, top.valid_out)
    tk = threshold(rep, d, bb, top.close_full, W)
    if not tk:
        return
    t, k = tk
    sub = Rep("converter")
    b = converter(sub, bd, ps, conv)
    rep.count("converter-transitions", sub.checked.get("abstract-transitions", 0))
    if sub.bad or b is None:
        raise AnalysisError("the splitter breaks its own contract (see C07)")
    cap = bb.params["depth"] - 1
    rep.check(t + k + b <= cap, "room-for-in-flight", W + ", close_full",
              lambda: "the stop flag rises with %d of %d entries stored and is seen %d cycle(s) later; the "
              "splitter may write %d more pieces, only %d fit; %s"
              % (t, depth, k, k + b, cap - t, d.where(top.close_full)))
    rep.sample("bd=%d ps=%d conv=%d depth=%d: stop at %d, %d late writes" % (bd, ps, conv, depth, t, b))


# ---- accepting groups ------------------------------------------------------------------------
def gate(rep, bd, ps):
    """Groups enter the pipeline exactly when the source was told it is ready; not while the buffer
    asks to stop, and not after the frame's last group until the next reset."""
    c = cfg(bit_depth=bd, pixels_per_cycle=ps, converter=15 * ps)
    top = make_cfg("integration_2", "Integration2", c)
    i1 = attr(top, "integration_1")
    cf, eof = attr(top, "lj92_pipeline_fifo.close_full"), attr(i1, "signals.end_of_frame")
    rf = attr(i1, "register_file")
    x = Explorer(rep, top, [top.nready, i1.valid_in, rf.width, rf.height], cut=[cf, eof])
    d = x.d
    name = cname(top)

    def moves(plain, gr):
        ended, open_, since = plain
        out = []
        for f in (0, 1):
            for e in (0, 1):
                for v in (0, 1):
                    out.append(((v, f, e), f == 0 and not ended, {id(cf): (f,), id(eof): (e,), id(top.valid_in): (v,)}))
        return out

    def step(get, env, plain, gr, label):
        ended, open_, since = plain
        v, f, e = label
        n = env.decide(get(top.nready)[0])
        a = env.decide(get(i1.valid_in)[0])
        ok = rep.check(a == (v and not n), "accept-iff-ready", name + ", accept",
                       lambda: "a group is %s the pipeline while valid=%d and not-ready=%d; %s"
                       % ("entered into" if a else "kept from", v, n, d.where(i1.valid_in)))
        ok &= rep.check(n or not f, "stop-when-full", name + ", nready",
                        lambda: "the source is told to go on while the pipeline buffer asks to stop; "
                        + d.where(top.nready))
        ok &= rep.check(n or not ended, "stop-after-frame", name + ", nready",
                        lambda: "a further group can be accepted after the last one of the frame; "
                        + d.where(top.nready))
        if not n:
            for s in (rf.width, rf.height):
                w = env.subw(get(s))
                ok &= rep.check(any(b == 1 for b in w), "geometry-loaded", name + ", nready",
                                lambda: "a group can be accepted while %s is still %s; %s"
                                % (s.name, bits_str(w), d.where(top.nready)))
        if not ok:
            return None
        return (ended or bool(a and e), open_ or not n, 0), [], not n
    x.run(((False, False, 0), []), moves, step)
    rep.sample("Integration2 ps=%d: %d control states" % (ps, rep.checked.get("abstract-states", 0)))


# ---- markers -----------------------------------------------------------------------------------
def markers(rep):
    top = make("markers", "Markers")
    x = Explorer(rep, top, [top.valid_out, top.end_out, top.data_out, top.o_busy])
    d, name = x.d, cname(top)
    new = word("new", 16)
    ones, cut_ = (1,) * 16, (0,) + (1,) * 15

    # plain: (held, hend, phase, n, accepted_end, forced): phase 0 opening, 1 data, 2 closing, 3 forced
    def moves(plain, gr):
        held, hend, phase, n, aend, forced = plain
        out = []
        for busy in (0, 1):
            for fe in ((1,) if forced else (0, 1)):
                if held:
                    offers = [(1, hend)]
                elif aend:
                    offers = [(0, 0), (1, 1)]
                else:
                    offers = [(0, 0), (1, 0), (1, 1)]
                for v, e in offers:
                    inp = {id(top.i_busy): (busy,), id(top.valid_in): (v,), id(top.end_in): (e,),
                           id(top.force_end_in): (fe,), id(top.data_in): gr[0] if held else new}
                    out.append(((v, e, busy, fe), not busy and (v or aend or phase >= 2 or
                                                         phase == 1 and fe or n > 0), inp))
        return out

    def step(get, env, plain, gr, label):
        held, hend, phase, n, aend, forced = plain
        v, e, busy, fe = label
        val = env.decide(get(top.valid_out)[0])
        acc = v and not env.decide(get(top.o_busy)[0])
        eo = env.decide(get(top.end_out)[0]) if val and not busy else 0
        data = env.subw(get(top.data_out))
        inw = gr[0] if held else new
        prog = False
        W = lambda: d.where(top.data_out)
        ok = True
        if val and not busy:
            prog = True
            if acc and phase in (0, 1):
                ok &= rep.check(phase == 1, "opening-mark", name, lambda: "data is sent after %d of the 8 "
                                "opening mark words; %s" % (n, W()))
                ok &= rep.check(eqw(env, data, inw), "data-between-marks", name, lambda: "the word sent is "
                                "%s, the one accepted %s; %s" % (bits_str(data), bits_str(inw), W()))
                ok &= rep.check(not eo, "end-on-last-mark", name, lambda: "the end flag is up on data; "
                                + d.where(top.end_out))
                if e:
                    aend, phase, n = True, 2, 0
            elif phase == 0:
                ok &= rep.check(data == ones, "opening-mark", name, lambda: "word %d of the opening mark is %s;"
                                " %s" % (n, bits_str(data), W()))
                ok &= rep.check(not eo, "end-on-last-mark", name, lambda: "the end flag is up on the opening "
                                "mark; " + d.where(top.end_out))
                n += 1
                if n == 8:
                    phase, n = 1, 0
            else:
                if phase == 1:
                    if not rep.check(forced or fe, "closing-mark", name, lambda: "the word %s is sent although "
                                     "no word was accepted and no time-out fired; %s" % (bits_str(data), W())):
                        return None
                    phase, n = 3, 0
                exp = ones if phase == 2 else cut_
                ok &= rep.check(data == exp, "closing-mark", name, lambda: "word %d of the %s mark is %s; %s"
                                % (n, "closing" if phase == 2 else "cut-short", bits_str(data), W()))
                ok &= rep.check(eo == (n == 7), "end-on-last-mark", name, lambda: "the end flag is %d on word %d "
                                "of the closing mark; %s" % (eo, n, d.where(top.end_out)))
                n += 1
        elif acc and not aend and phase != 3:
            rep.fail("data-between-marks", name, "a word is accepted from the stream but not sent on; "
                     + d.where(top.o_busy))
            return None
        if not ok:
            return None
        if phase >= 2 and n == 8:
            return None
        held = bool(v) and not acc and not aend
        return (held, e if held else 0, phase, n, aend, forced or bool(fe)), ([inw] if held else []), prog
    x.run(((False, 0, 0, 0, False, False), []), moves, step)
    rep.sample("Markers: %d control states" % rep.checked.get("abstract-states", 0))
