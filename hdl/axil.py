"""AXI-lite register ports."""
from lib import *
from stream import Explorer
from stages import cfg

BASE = 0x43C00000


def core(rep, bd, debug):
    """Every read returns the addressed register or table half-word, every write changes exactly the
    strobed bytes of the addressed one, each transfer gets one response, held until taken."""
    top = make_cfg("core_axi_lite", "CoreAxiLite", cfg(bit_depth=bd, axi_lite_debug=debug))
    dbg = [attr(top, "debug_module.registers")[i] for i in range(8)] if debug else []

    def target(a):
        """a word address -> (kind, index)"""
        if a & 0x400:
            return ("ssss", a & 63) if (a & 63) < 2 * (bd + 1) else ("none", 0)
        if a & 0x800:
            return ("set", a & 1)
        if a & 0x1000 and debug:
            return ("dbg", a & 7)
        return ("none", 0)
    some = [0x800, 0x801, 0x404, 0x405]
    rest = [0x400 + i for i in range(64)] + [0x1000 + i for i in range(8)] + [0, 1, 5]
    last = 0x400 + 2 * bd + 1
    port(rep, top, (top.s_axi_ro, top.s_axi_ri, top.s_axi_wo, top.s_axi_wi), "full",
         [([top.height, top.width], 32), ([top.allowed_cycles], 24)], dbg, True, bd + 21, target, some, rest,
         [(last, 1)], ((0x800, 0x404), (0x404, 0x800), (0x404, 0x404), (0x404, 0x407), (0x800, 0x800), (0x801, 0x800)))


def dma(rep):
    """the DMA control port: addresses and start are read and written, the observed values are read"""
    top = make("dma_axi_lite", "DMAAxiLite")
    live = [attr(top, "in%d" % i) for i in range(1, 10)]

    def target(a):
        if not a & 0x400 or (a & 15) > 11:
            return ("none", 0)
        i = a & 15
        return ("set", i) if i < 3 else ("dbg", i - 3)
    some = [0x400, 0x401, 0x402, 0x403]
    rest = [0x400 + i for i in range(16)] + [0, 1, 0x800]
    port(rep, top, (top.s_axi_ro_, top.s_axi_ri_, top.s_axi_wo_, top.s_axi_wi_), "sync",
         [([top.read_addr], 32), ([top.write_addr], 32), ([top.start], 32)], live, False, 0, target, some, rest, [],
         ((0x400, 0x401), (0x402, 0x402), (0x403, 0x402)))


def port(rep, top, bus, domain, settings, dbg, table, EW, target, some, rest, more, both):
    ro, ri, wo, wi = bus
    setsig = [s for sigs, n in settings for s in sigs]
    outs = [ro.arready, ro.rdata, ro.rresp, ro.rvalid, wo.awready, wo.wready, wo.bresp, wo.bvalid] + setsig
    if table:
        outs += [top.wp_addr, top.wp_data, top.wp_en, top.rp_addr]
    x = Explorer(rep, top, outs, cut=[s for s in dbg if table], domain=domain)
    d, name = x.d, cname(top)
    txns = []                                  # (read address or None, (write address, strobe) or None, slow)
    for a in some:
        txns.append((a, None, 1))
        for st in range(16):
            txns.append((None, (a, st), 1 if st in (15, 5) else 0))
    for a in rest:
        txns.append((a, None, 0))
        txns.append((None, (a, 15), 0))
    for w in more:
        txns.append((None, w, 0))
    for a, b in both:
        txns.append((a, (b, 15), 0))
    NEWW = word("wd", 32)

    # plain: (read (addr, phase) or None, write (addr, strobe, aw, w, written, slow) or None,
    #         table indices present, index in the read port, rvalid seen, bvalid seen)
    # phases: read 0 address offered, 1 address taken; aw/w 0 not offered, 1 offered, 2 taken
    def layout(plain, gr):
        rd, wr, cells, q, rs, bs = plain
        g = list(gr)
        k = len(settings)
        st = {("set", i): g[i] for i in range(k)}
        if wr and wr[3]:
            st["wd"] = g[k]
            k += 1
        for c in cells:
            st["cell", c] = g[k]
            k += 1
        if rd and target(rd[0])[0] == "dbg":
            st["dbg"] = g[k]
        return st

    def fresh(rd, wr, cells):
        want = []
        for a in ([rd[0]] if rd else []) + ([wr[0]] if wr else []):
            k, i = target(a)
            if k == "ssss" and i >> 1 not in want:
                want.append(i >> 1)
        return tuple(sorted(want))

    def moves(plain, gr):
        rd, wr, cells, q, rs, bs = plain
        st = layout(plain, gr)
        out = []
        opts = [(rd, wr)]
        if not rd and not wr:
            for r, w, slow in txns:
                opts.append(((r, 0) if r is not None else None,
                             (w[0], w[1], 0, 0, 0, slow) if w else None))
        for r, w in opts:
            offers = [w]
            if w and (w[2] == 0 or w[3] == 0):
                offers = []
                for a, b in (((1, 1),) if not w[5] else ((1, 0), (0, 1), (1, 1), (0, 0))):
                    if (a or w[2]) or (b or w[3]) or w[5]:
                        offers.append((w[0], w[1], max(a, w[2]), max(b, w[3]), w[4], w[5]))
            for w2 in offers:
                for rr in (0, 1):
                    for br in (0, 1):
                        if (not r and rr and br == 0) or (not w2 and br and not rr) or \
                                (not r and not w2 and (rr, br) != (0, 0)):
                            continue
                        inp = {id(ri.arvalid): (int(bool(r and r[1] == 0)),), id(ri.rready): (rr,),
                               id(wi.awvalid): (int(bool(w2 and w2[2] == 1)),),
                               id(wi.wvalid): (int(bool(w2 and w2[3] == 1)),), id(wi.bready): (br,)}
                        if r and r[1] == 0:
                            inp[id(ri.araddr)] = const_word(BASE | r[0] << 2, ri.araddr.width)
                        if w2 and w2[2] == 1:
                            inp[id(wi.awaddr)] = const_word(BASE | w2[0] << 2, wi.awaddr.width)
                        if w2 and w2[3] == 1:
                            inp[id(wi.wdata)] = st.get("wd", NEWW)
                            inp[id(wi.wstrb)] = const_word(w2[1], wi.wstrb.width)
                        if table:
                            inp[id(top.rp_data)] = st["cell", q] if q is not None else word("junk", EW)
                        dw = st.get("dbg", word("newdbg", 32))
                        if r and target(r[0])[0] == "dbg":
                            inp[id(dbg[target(r[0])[1]])] = dw
                        coop = bool(rr or not r) and bool(br or not w2) and \
                            not (w2 and (w2[2] == 0 or w2[3] == 0)) and bool(r or w2)
                        lab = ("r=%x/%d" % r if r else "-", "w=%x/%x aw%d w%d" % w2[:4] if w2 else "-",
                               "rready=%d" % rr, "bready=%d" % br)
                        out.append(((r, w2, rr, br, lab), coop, inp))
        return out

    def merged(old, wd, strobe, half, n):
        full = list(old) + [0] * (64 - n)
        for i in range(4):
            if strobe >> i & 1:
                full[32 * half + 8 * i:32 * half + 8 * i + 8] = wd[8 * i:8 * i + 8]
        return tuple(full[:n])

    def step(get, env, plain, gr, label):
        rd, wr, cells, q, rs, bs = plain
        r, w, rr, br, lab = label
        st = dict(layout(plain, gr))
        st = {k: env.subw(v) for k, v in st.items()}
        if w and w[3] and "wd" not in st:
            st["wd"] = NEWW
        cells2 = list(cells)
        for c in fresh(r, w, cells):
            if c not in cells2:
                cells2.append(c)
                st["cell", c] = word("cell%d" % c, EW)
        if r and target(r[0])[0] == "dbg" and "dbg" not in st:
            st["dbg"] = word("newdbg", 32)
        bit = lambda s: env.decide(get(s)[0])
        prog = False
        ok = True
        wk, wi_ = target(w[0]) if w else (None, 0)
        live = bool(w and w[3] and w[2])             # a write's data may take effect
        written = w[4] if w else 0
        # settings
        for k, (sigs, n) in enumerate(settings):
            key = ("set", k)
            cur = tuple(b for s in sigs for b in env.subw(get(s)))
            if eqw(env, cur, st[key]):
                continue
            new = merged(st[key], st["wd"], w[1], 0, n) if live and wk == "set" and wi_ == k else None
            ok &= rep.check(new is not None and eqw(env, cur, new), "write-exact", "%s, %s" % (name, sigs[0].name),
                            lambda: "%s becomes %s%s; %s" % (
                                "+".join(s.name for s in sigs), bits_str(cur),
                                ", the write would make it %s" % bits_str(new) if new else " without a write to it",
                                d.where(sigs[0])))
            st[key] = cur
        # table
        if table and bit(top.wp_en):
            at = env.value(env.subw(get(top.wp_addr)))
            good = live and wk == "ssss" and at == wi_ >> 1
            ok &= rep.check(good, "write-exact", name + ", table", lambda: "table entry %d is written without a "
                            "write to it; %s" % (at, d.where(top.wp_en)))
            if not good:
                return None
            new = merged(st["cell", at], st["wd"], w[1], wi_ & 1, EW)
            data = env.subw(get(top.wp_data))
            ok &= rep.check(eqw(env, data, new), "write-exact", name + ", table", lambda: "table entry %d is set "
                            "to %s instead of %s (half %d, strobe %x); %s" % (at, bits_str(data), bits_str(new), wi_ & 1,
                                                                             w[1], d.where(top.wp_data)))
            st["cell", at] = data
            written = 1
        # read channel
        rv, bv = bit(ro.rvalid), bit(wo.bvalid)
        if rv:
            ok &= rep.check(bool(r and r[1] == 1), "one-response", name + ", rvalid",
                            lambda: "read data is announced without an accepted read; " + d.where(ro.rvalid))
        else:
            ok &= rep.check(not rs, "held-until-taken", name + ", rvalid",
                            lambda: "the read response is withdrawn before it is taken; " + d.where(ro.rvalid))
        if bv:
            ok &= rep.check(bool(w and w[2] == 2 and w[3] == 2), "one-response", name + ", bvalid", lambda:
                            "a write is confirmed before its address and data were taken; " + d.where(wo.bvalid))
        else:
            ok &= rep.check(not bs, "held-until-taken", name + ", bvalid",
                            lambda: "the write response is withdrawn before it is taken; " + d.where(wo.bvalid))
        if not ok:
            return None
        r2, w2 = r, w
        rs2, bs2 = 0, 0
        if rv:
            k, i = target(r[0])
            resp = env.value(env.subw(get(ro.rresp)))
            data = env.subw(get(ro.rdata))
            ok &= rep.check(resp == (3 if k == "none" else 0), "response-code", name + ", rresp", lambda:
                            "a read of word 0x%x answers %d; %s" % (r[0], resp, d.where(ro.rresp)))
            exp = None
            if k == "set":
                exp = st["set", i] + (0,) * (32 - settings[i][1])
            elif k == "ssss":
                exp = (tuple(st["cell", i >> 1]) + (0,) * (64 - EW))[32 * (i & 1):32 * (i & 1) + 32]
            elif k == "dbg":
                exp = st["dbg"]
            if exp is not None:
                ok &= rep.check(eqw(env, data, exp), "read-value", "%s, %s" % (name, k), lambda: "a read of word "
                                "0x%x gives %s instead of %s; %s" % (r[0], bits_str(data), bits_str(exp),
                                                                    d.where(ro.rdata)))
            rs2 = 1
            if rr:
                prog = True
                r2, rs2 = None, 0
                st.pop("dbg", None)
        elif r and r[1] == 0 and bit(ro.arready):
            r2 = (r[0], 1)
            prog = True
        if bv:
            k, i = wk, wi_
            resp = env.value(env.subw(get(wo.bresp)))
            exp = {"none": 3, "dbg": 2}.get(k, 0)
            ok &= rep.check(resp == exp or not w[1] and k == "dbg" and resp == 0, "response-code", name + ", bresp", lambda: "a write of word 0x%x answers "
                            "%d instead of %d; %s" % (w[0], resp, exp, d.where(wo.bresp)))
            if k == "set":
                key, n = ("set", i), settings[i][1]
                ok &= rep.check(eqw(env, merged(st[key], st["wd"], w[1], 0, n), st[key]), "write-exact",
                                name + ", confirmed", lambda: "a write of word 0x%x is confirmed but not done; %s"
                                % (w[0], d.where(settings[i][0][0])))
            elif k == "ssss":
                ok &= rep.check(written, "write-exact", name + ", confirmed",
                                lambda: "a write of table word 0x%x (strobe %x) is confirmed but not done; %s"
                                % (w[0], w[1], d.where(top.wp_en)))
            bs2 = 1
            if br:
                prog = True
                w2, bs2 = None, 0
        elif w:
            aw, wv = w[2], w[3]
            if aw == 1 and bit(wo.awready):
                aw, prog = 2, True
            if wv == 1 and bit(wo.wready):
                wv, prog = 2, True
            w2 = (w[0], w[1], aw, wv, written, w[5])
        if not ok:
            return None
        # the memory's registered read
        keep = fresh(r2, w2, cells2)
        qa = None
        if table:
            qa = env.subw(get(top.rp_addr))
            qa = sum(b << i for i, b in enumerate(qa)) if all(b == 0 or b == 1 for b in qa) else None
        groups = [st["set", i] for i in range(len(settings))]
        if w2 and w2[3]:
            groups.append(st["wd"])
        groups += [st["cell", c] for c in keep]
        if r2 and target(r2[0])[0] == "dbg":
            groups.append(st["dbg"])
        return (r2, w2, keep, qa if qa in keep else None, rs2, bs2), groups, prog
    # the settings start out arbitrary; between transfers only the control registers are kept
    sets = [s for s in d.cone(setsig) if d.is_reg(s)]
    sets = [s for s in sets if s.width > 4 and any(p is s for o in setsig for p in d.comb_cone(o))]
    x.start = {id(s): word("set:%s%d" % (s.name, i), s.width) for i, s in enumerate(sets)}
    x.forget = lambda plain: [s for s in x.regs if s.width > 4 and not any(s is q for q in sets)] \
        if not plain[0] and not plain[1] else ()
    c = Ctx(d, x.start, {}, Env())
    x.run(((None, None, (), None, 0, 0), [tuple(b for s in sigs for b in c.get(s)) for sigs, n in settings]), moves, step)
    rep.sample("%s: %d kinds of transfers" % (cname(top), len(txns)))


def domains(rep, bd, debug):
    """a transfer in progress is not disturbed by the frame reset: the whole port is in one domain"""
    top = make_cfg("core_axi_lite", "CoreAxiLite", cfg(bit_depth=bd, axi_lite_debug=debug))
    d = Design(top)
    rep.stat(d)
    for s in d.regs():
        rep.check(d.drivers[id(s)][0].domain == "full", "survives-frame-reset", "%s, %s" % (cname(top), s.name),
                  lambda: "%s is reset with the core after every frame, in the middle of a transfer; %s"
                  % (s.name, d.where(s)))
