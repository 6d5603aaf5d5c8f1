"""The DMA engines on the memory bus (AXI3), their address generators."""
from lib import *
from stream import Explorer

BEATS = 16


def _same(rep, name, d, get, env, pairs):
    ok = True
    for rule, sig, want, what in pairs:
        got = env.subw(get(sig))
        ok &= rep.check(eqw(env, got, want), rule, "%s, %s" % (name, sig.name), lambda: "%s: is %s, must be %s; %s"
                        % (what, bits_str(got), bits_str(want), d.where(sig)))
    return ok


def _one(get, env, s):
    return env.decide(get(s)[0])


def writer(rep):
    """bursts of 16 beats, one per address; nothing taken from an empty FIFO; transfers held; responses
    always taken; the in-flight counters are exact"""
    top = make("axihp_writer", "AxiHPWriter")
    wo, wi = top.m_axi_wo, top.m_axi_wi
    outs = [wo.awaddr, wo.awlen, wo.awsize, wo.awburst, wo.awvalid, wo.wdata, wo.wstrb, wo.wlast, wo.wvalid,
            wo.bready, top.inactive, top.addr_enable, top.data_enable, top.writer_error, top.writer_active,
            top.writer_unconf]
    x = Explorer(rep, top, outs)
    x.settle = True
    d, name = x.d, cname(top)
    A, D, S = word("in:" + top.addr_in.name, 32), word("in:" + top.data_in.name, 64), \
        word("in:" + top.write_strobe.name, 8)
    MAX = (1 << top.writer_unconf.width) - 1

    # plain: (an address waits, awvalid was held, beats sent, wvalid was held, words surely in the FIFO,
    #         bursts with data to send, bursts to confirm, bvalid is held, was enabled)
    def moves(plain, gr):
        ad, ah, n, wh, lb, act, dn, bh, pe = plain
        out = []
        for e in (0, 1):
            for a in ((1,) if ad else (0, 1)):
                for de in ((0,) if lb == 16 else (0, 1)):
                    if de == 0 and lb < 16 and n:
                        continue              # a fuller FIFO only helps in the middle of a burst
                    for b in ((1,) if bh else (0, 1) if dn else (0,)):
                        inp = {id(top.enable): (e,), id(top.addr_empty): (1 - a,), id(top.data_empty): (de,),
                               id(wi.bvalid): (b,), id(wi.bresp): word("in:bresp", 2)}
                        out.append(((e, a, de, b), bool(b or e and a and not de and not dn), inp))
        return out

    def step(get, env, plain, gr, label):
        ad, ah, n, wh, lb, act, dn, bh, pe = plain
        e, a, de, b = label
        if not de:
            lb = 16
        ok = _same(rep, name, d, get, env, [
            ("accounting", top.writer_active, const_word(act, 4), "bursts with data to send"),
            ("accounting", top.writer_unconf, const_word(act + dn, 4), "bursts not confirmed"),
            ("accounting", top.inactive, (int(act + dn == 0),), "idle flag")])
        if not ok:
            return None
        av, wv, br = _one(get, env, wo.awvalid), _one(get, env, wo.wvalid), _one(get, env, wo.bready)
        # address
        ok &= rep.check(av or not ah, "held-until-taken", name + ", awvalid", lambda: "the address is withdrawn "
                        "before it is taken; " + d.where(wo.awvalid))
        ok &= rep.check(a or not av, "address-available", name + ", awvalid", lambda: "an address transfer is "
                        "offered although no address waits; " + d.where(wo.awvalid))
        ok &= rep.check(e or pe or ah or not av, "only-when-enabled", name + ", awvalid", lambda: "a new burst is requested "
                        "while the engine is switched off; " + d.where(wo.awvalid))
        ard = env.decide(get(wi.awready)[0]) if av else 0
        ae = _one(get, env, top.addr_enable)
        ok &= rep.check(ae == (av and ard), "one-address-per-burst", name + ", addr_enable", lambda: "an address is "
                        "%s; %s" % ("used up without being sent" if ae else "sent but not used up",
                                    d.where(top.addr_enable)))
        if av:
            ok &= _same(rep, name, d, get, env, [
                ("burst-shape", wo.awaddr, A, "the burst's address"),
                ("burst-shape", wo.awlen, const_word(BEATS - 1, 4), "beats per burst, less one"),
                ("burst-shape", wo.awsize, const_word(3, 2), "bytes per beat (log2)"),
                ("burst-shape", wo.awburst, const_word(1, 2), "burst type")])
        # data
        ok &= rep.check(wv or not wh, "held-until-taken", name + ", wvalid", lambda: "a data word is withdrawn "
                        "before it is taken; " + d.where(wo.wvalid))
        ok &= rep.check(act or not wv, "data-after-address", name + ", wvalid", lambda: "a data word is offered "
                        "without a burst it belongs to; " + d.where(wo.wvalid))
        wrd = env.decide(get(wi.wready)[0]) if wv else 0
        de2 = _one(get, env, top.data_enable)
        ok &= rep.check(de2 == (wv and wrd), "each-word-once", name + ", data_enable", lambda: "a word is %s; %s"
                        % ("taken from the FIFO without being sent" if de2 else "sent but left in the FIFO",
                           d.where(top.data_enable)))
        if wv:
            ok &= _same(rep, name, d, get, env, [
                ("each-word-once", wo.wdata, D, "the data word"), ("burst-shape", wo.wstrb, S, "the byte strobes"),
                ("last-beat", wo.wlast, (int(n == BEATS - 1),), "last flag of beat %d" % n)])
            ok &= rep.check(lb >= 1, "no-underrun", name + ", wvalid", lambda: "a word is offered with the FIFO "
                            "possibly empty (beat %d); %s" % (n, d.where(wo.wvalid)))
        er = env.sub(get(top.writer_error)[0])
        bt = b and br
        bad = b_or(list(word("in:bresp", 2))) if bt else 0
        ok &= rep.check(eqw(env, (er,), (env.sub(bad),)), "error-flag", name + ", writer_error", lambda: "the error flag is %r, "
                        "must be %r; %s" % (er, bad, d.where(top.writer_error)))
        if not ok:
            return None
        act2, dn2, n2, lb2 = act, dn, n, lb
        prog = bool(av and not ard or wv and not wrd)      # not a willing environment
        if av and ard:
            act2 += 1
            prog = True
        if wv and wrd:
            prog = True
            lb2 -= 1
            n2 += 1
            if n2 == BEATS:
                n2 = 0
                act2 -= 1
                dn2 += 1
        if bt:
            prog = True
            dn2 -= 1
        ok = rep.check(act2 + dn2 <= MAX, "accounting", name + ", unconf", lambda: "more bursts in flight than the "
                       "counter holds (%d); %s" % (MAX, d.where(top.writer_unconf)))
        if not ok:
            return None
        need = BEATS - n2 if n2 else 0
        lb2 = 16 if lb2 == 16 else need if lb2 >= need else lb2
        return (int(a and not ae), int(av and not ard), n2, int(wv and not wrd), lb2, act2, dn2,
                int(b and not bt), e), [], prog
    x.run(((0, 0, 0, 0, 0, 0, 0, 0, 0), []), moves, step)
    rep.sample("AxiHPWriter: %d-beat bursts, any handshake timing" % BEATS)


def reader(rep):
    top = make("axihp_reader", "AxiHPReader")
    ro, ri = top.m_axi_ro, top.m_axi_ri
    outs = [ro.araddr, ro.arlen, ro.arsize, ro.arburst, ro.arvalid, ro.rready, top.inactive, top.addr_enable,
            top.data_enable, top.data_out, top.reader_error, top.reader_active]
    x = Explorer(rep, top, outs)
    x.settle = True
    d, name = x.d, cname(top)
    A, D = word("in:" + top.addr_in.name, 32), word("in:" + ri.rdata.name, 64)
    MAX = (1 << top.reader_active.width) - 1

    # plain: (an address waits, arvalid was held, beats received, rvalid held, room surely in the FIFO, bursts open, was enabled)
    def moves(plain, gr):
        ad, ah, n, rh, lb, act, pe = plain
        out = []
        for e in (0, 1):
            for a in ((1,) if ad else (0, 1)):
                for fu in ((0,) if lb == 16 else (0, 1)):
                    if fu == 0 and lb < 16 and n:
                        continue
                    for v in ((1,) if rh else (0, 1) if act else (0,)):
                        for l in ((int(n == BEATS - 1),) if v else (0, 1)):
                            inp = {id(top.enable): (e,), id(top.addr_empty): (1 - a,), id(top.data_full): (fu,),
                                   id(ri.rvalid): (v,), id(ri.rlast): (l,), id(ri.rresp): word("in:rresp", 2)}
                            out.append(((e, a, fu, v, l), bool(e and a and not fu and (v or not act)), inp))
        return out

    def step(get, env, plain, gr, label):
        ad, ah, n, rh, lb, act, pe = plain
        e, a, fu, v, l = label
        if not fu:
            lb = 16
        ok = _same(rep, name, d, get, env, [
            ("accounting", top.reader_active, const_word(act, 4), "bursts with data to receive"),
            ("accounting", top.inactive, (int(act == 0),), "idle flag")])
        if not ok:
            return None
        av, rr = _one(get, env, ro.arvalid), _one(get, env, ro.rready)
        ok &= rep.check(av or not ah, "held-until-taken", name + ", arvalid", lambda: "the address is withdrawn "
                        "before it is taken; " + d.where(ro.arvalid))
        ok &= rep.check(a or not av, "address-available", name + ", arvalid", lambda: "an address transfer is "
                        "offered although no address waits; " + d.where(ro.arvalid))
        ok &= rep.check(e or pe or ah or not av, "only-when-enabled", name + ", arvalid", lambda: "a new burst is requested "
                        "while the engine is switched off; " + d.where(ro.arvalid))
        ard = env.decide(get(ri.arready)[0]) if av else 0
        ae = _one(get, env, top.addr_enable)
        ok &= rep.check(ae == (av and ard), "one-address-per-burst", name + ", addr_enable", lambda: "an address is "
                        "%s; %s" % ("used up without being sent" if ae else "sent but not used up",
                                    d.where(top.addr_enable)))
        if av:
            ok &= _same(rep, name, d, get, env, [
                ("burst-shape", ro.araddr, A, "the burst's address"),
                ("burst-shape", ro.arlen, const_word(BEATS - 1, 4), "beats per burst, less one"),
                ("burst-shape", ro.arsize, const_word(3, 2), "bytes per beat (log2)"),
                ("burst-shape", ro.arburst, const_word(1, 2), "burst type")])
        de = _one(get, env, top.data_enable)
        ok &= rep.check(de == (v and rr), "each-word-once", name + ", data_enable", lambda: "a word is %s; %s"
                        % ("put into the FIFO without being received" if de else "received but not put into the FIFO",
                           d.where(top.data_enable)))
        er = env.sub(get(top.reader_error)[0])
        bad = 0
        if de:
            ok &= _same(rep, name, d, get, env, [("each-word-once", top.data_out, D, "the word for the FIFO")])
            ok &= rep.check(lb >= 1, "no-overflow", name + ", data_enable", lambda: "a word is put into the FIFO "
                            "with no room known (beat %d); %s" % (n, d.where(top.data_enable)))
            bad = b_or(list(word("in:rresp", 2)))
        ok &= rep.check(eqw(env, (er,), (env.sub(bad),)), "error-flag", name + ", reader_error", lambda: "the error flag is %r, "
                        "must be %r; %s" % (er, bad, d.where(top.reader_error)))
        if not ok:
            return None
        act2, n2, lb2, prog = act, n, lb, bool(av and not ard)
        if av and ard:
            act2 += 1
            prog = True
        if de:
            prog = True
            lb2 -= 1
            n2 += 1
            if n2 == BEATS:
                n2 = 0
                act2 -= 1
        ok = rep.check(act2 <= MAX, "accounting", name + ", active", lambda: "more bursts in flight than the "
                       "counter holds (%d); %s" % (MAX, d.where(top.reader_active)))
        if not ok:
            return None
        need = BEATS - n2 if n2 else 0
        lb2 = 16 if lb2 == 16 else need if lb2 >= need else lb2
        return (int(a and not ae), int(av and not ard), n2, int(v and not de), lb2, act2, e), [], prog
    x.run(((0, 0, 0, 0, 0, 0, 0), []), moves, step)
    rep.sample("AxiHPReader: %d-beat bursts, any handshake timing" % BEATS)


def address_generator(rep, shift):
    """start, start + shift, start + 2*shift ... : one step per address used"""
    top = make("address_generator", "AddressGenerator", shift)
    x = Explorer(rep, top, [top.address_o, top.address_valid])
    x.settle = False
    d, name = x.d, cname(top)
    S = word("start", 32)
    where = d.where(top.address_o)

    # plain: (cycles since reset, an address was used); the start address is stable from reset on
    def moves(plain, gr):
        out = []
        for latch in (0, 1):
            out.append((latch, True, {id(top.address_latch): (latch,), id(top.starting_address): gr[0]}))
        return out

    def step(get, env, plain, gr, latch):
        n, used = plain
        v = env.decide(get(top.address_valid)[0])
        S = env.subw(gr[0])
        rep.check(v or n < 2, "address-offered", name, lambda: "no address is offered %d cycles after reset; %s"
                  % (n, d.where(top.address_valid)))
        if latch and not v:
            return None                        # only valid addresses are used
        cur = env.subw(get(top.address_o))
        ok = True
        if v and not used:
            ok = rep.check(eqw(env, cur, S), "first-address", name, lambda: "the first address is %s, not the start "
                           "address; %s" % (bits_str(cur), where))
        nxt = env.subw(x.c.next(top.address_o))
        nv = env.sub(x.c.next(top.address_valid)[0])
        if v and latch:
            want = bits_of(fadd(form_of(cur), (shift, ())), 32)
            ok &= rep.check(eqw(env, nxt, want) and nv == 1, "next-address", name, lambda: "after an address is "
                            "used the next one is %s (valid %r), must be the one before plus %d; %s"
                            % (bits_str(nxt), nv, shift, where))
        elif v and used:
            ok &= rep.check(eqw(env, nxt, cur) and nv == 1, "address-held", name, lambda: "an address that was not "
                            "used changes to %s (valid %r); %s" % (bits_str(nxt), nv, where))
        if not ok:
            return None
        return (min(n + 1, 2), int(used or latch)), [S], True
    x.forget = lambda plain: [top.address_o] if plain[1] else ()
    x.run(((0, 0), [S]), moves, step)
    rep.sample("AddressGenerator(%d)" % shift)
