"""Connection obligations: what a signal carries, as a function of the ports it is wired to."""
from lib import *
from stages import cfg


def wired(rep, d, pairs, where, env_facts=None):
    """pairs: (destination signal, expected word, description).  The expected word is written over
    the bits of leaf(signal)."""
    leaves = {}

    def leaf(s):
        return leaves.setdefault(id(s), word("%s#%d" % (s.name, len(leaves)), s.width))
    for dst, exp, what, *need in pairs:
        def run(env):
            inputs = _Leaves(d, leaf)
            c = Ctx(d, _Regs(d, leaf), inputs, env)
            return c.get(dst) if not d.is_cut(dst) else drive_of(c, d, dst)
        want = exp(leaf) if callable(exp) else leaf(exp)
        if not rep.check(dst.width >= 1 and (need and dst.width >= need[0] or
                                             all(b == 0 for b in want[dst.width:])), "connection", "%s, %s" % (where, what),
                         lambda: "%s has %d bits where %d arrive: the upper ones are lost; %s"
                         % (what, dst.width, len(want), d.where(dst))):
            continue
        for env, got in cases(run, env_facts):
            rep.check(eqw(env, got, ext(want, False, dst.width)), "connection", "%s, %s" % (where, what),
                      lambda: "%s carries %s [%s] instead of %s; %s"
                      % (what, bits_str(env.subw(got)), facts_str(env), bits_str(env.subw(want)),
                         d.where(dst)))


def drive_of(c, d, dst):
    ds = d.drivers.get(id(dst))
    if not ds:
        return const_word(dst.reset, dst.width)
    return c.run(dst, ds[0], const_word(dst.reset, dst.width))


class _Leaves(dict):
    def __init__(self, d, leaf):
        dict.__init__(self)
        self.d, self.leaf = d, leaf

    def __contains__(self, key):
        return key in self.d._cut or key in self.d.bb_out or \
            (key in self.d.sigs and key not in self.d.drivers)

    def __missing__(self, key):
        s = self.d._cut.get(key)
        if s is None:
            s = self.d.sigs[key]
        r = self[key] = self.leaf(s)
        return r


class _Regs(dict):
    def __init__(self, d, leaf):
        dict.__init__(self)
        self.d, self.leaf = d, leaf

    def get(self, key, default=None):
        return self[key]

    def __missing__(self, key):
        r = self[key] = self.leaf(self.d.sigs[key])
        return r


def pipeline(rep, bd, ps, axi):
    """Integration1: every stage receives what the stage before it emits, for the same group."""
    top = make_cfg("integration_1", "Integration1",
                   cfg(bit_depth=bd, pixels_per_cycle=ps, support_axi_lite=axi))
    pr, di, no, en = (attr(top, n) for n in ("predictor", "difference", "normalize", "encode"))
    si, fe = attr(top, "signals"), attr(top, "force_end")
    last = attr(top, "merge") if ps > 1 else en
    rf = attr(top, "core_axi_lite" if axi else "register_file")
    cut = []
    for s in (pr, di, no, en) + ((last,) if ps > 1 else ()):
        cut += [s.valid_out, s.end_out]
    cut += list(pr.pixels_out) + list(pr.predics_out) + list(di.vals_out) + list(di.vals_out_mns)
    cut += list(no.vals_out) + list(no.ssssx) + list(en.encs_out) + list(en.encs_ctr)
    if ps > 1:
        cut += [last.enc_out, last.enc_out_ctr]
    cut += [si.new_row, si.end_of_frame, rf.height, rf.width, rf.allowed_cycles, fe.fend]
    d = Design(top, cut)
    rep.stat(d)
    W = cname(top)
    p = [(si.new_input, top.valid_in, "the group counter's input strobe"),
         (si.height, rf.height, "the frame height"), (si.width, rf.width, "the frame width"),
         (fe.allowed_cycles, rf.allowed_cycles, "the time-out setting"),
         (fe.valid_in, top.valid_in, "the time-out's activity input"),
         (top.fend_out, fe.fend, "the forced end"),
         (pr.new_row, si.new_row, "the predictor's start-of-row flag"),
         (pr.valid_in, top.valid_in, "the predictor's valid flag"),
         (pr.end_in, si.end_of_frame, "the predictor's end flag")]
    for i in range(ps):
        p.append((pr.pixels_in[i], top.pixels_in[i], "sample %d into the predictor" % i))
        p.append((di.pixels_in[i], pr.pixels_out[i], "sample %d into the subtractor" % i))
        p.append((di.predics_in[i], pr.predics_out[i], "prediction %d" % i))
        p.append((en.vals_in[i], no.vals_out[i], "value bits %d" % i))
        p.append((en.ssssx[i], no.ssssx[i], "class %d" % i))
        if ps > 1:
            p.append((last.encs_in[i], en.encs_out[i], "codeword %d" % i))
            p.append((last.encs_in_ctr[i], en.encs_ctr[i], "length of codeword %d" % i))
    chain = [pr, di, no, en] + ([last] if ps > 1 else [])
    for a, b in zip(chain, chain[1:]):
        nm = type(b).__name__
        p.append((b.valid_in, a.valid_out, "the valid flag of %s" % nm))
        p.append((b.end_in, a.end_out, "the end flag of %s" % nm))
    p.append((top.valid_out, last.valid_out, "the output valid flag"))
    p.append((top.end_out, last.end_out, "the output end flag"))
    if ps > 1:
        p.append((top.enc_out, last.enc_out, "the output codewords"))
        p.append((top.enc_out_ctr, last.enc_out_ctr, "the output length"))
    else:
        p.append((top.enc_out, en.encs_out[0], "the output codeword"))
        p.append((top.enc_out_ctr, en.encs_ctr[0], "the output length"))
    if axi:
        p += [(en.extern_w_port.addr, rf.wp_addr, "table write address", bd.bit_length()),
              (en.extern_w_port.data, rf.wp_data, "table write data"),
              (en.extern_w_port.en, rf.wp_en, "table write enable"),
              (en.extern_r_port.addr, rf.rp_addr, "table read address", bd.bit_length()),
              (rf.rp_data, en.extern_r_port.data, "table read data")]
    wired(rep, d, p, W)
    rep.sample("Integration1 bd=%d ps=%d axi=%s: %d connections" % (bd, ps, axi, len(p)))


# ---- the integrations ----------------------------------------------------------------------
def flag0(s):
    """one bit: the signal is zero"""
    return lambda leaf: (neg(b_or(leaf(s))),)


def chain(rep, top, cut, pairs):
    d = Design(top, cut)
    rep.stat(d)
    wired(rep, d, pairs, cname(top))
    rep.sample("%s: %d connections" % (type(top).__name__, len(pairs)))
    return d


def integration2(rep, bd, ps, conv, axi):
    top = make_cfg("integration_2", "Integration2", cfg(bit_depth=bd, pixels_per_cycle=ps, converter=conv,
                                                        support_axi_lite=axi))
    i1, pf, cv, cf = (attr(top, n) for n in ("integration_1", "lj92_pipeline_fifo", "converter", "converter_fifo"))
    cut = [i1.enc_out, i1.enc_out_ctr, i1.valid_out, i1.end_out, pf.enc_out, pf.enc_out_ctr, pf.valid_out,
           pf.out_end, pf.close_full, cv.enc_in, cv.enc_in_ctr, cv.in_end, cv.valid_in, cv.latch_output,
           cf.enc_out, cf.enc_out_ctr, cf.valid_out, cf.out_end, cf.close_full]
    p = [(pf.enc_in, i1.enc_out, "the codewords into the pipeline buffer"),
         (pf.enc_in_ctr, i1.enc_out_ctr, "their length into the pipeline buffer"),
         (pf.valid_in, i1.valid_out, "the pipeline buffer's write strobe"),
         (pf.in_end, i1.end_out, "the pipeline buffer's end flag"),
         (pf.latch_output, cv.latch_output, "the pipeline buffer's read strobe"),
         (cv.enc_out, pf.enc_out, "the codewords into the splitter"),
         (cv.enc_out_ctr, pf.enc_out_ctr, "their length into the splitter"),
         (cv.out_end, pf.out_end, "the end flag into the splitter"),
         (cv.valid_out, pf.valid_out, "the splitter's valid flag"),
         (cv.close_full, cf.close_full, "the stop request to the splitter"),
         (cf.enc_in, cv.enc_in, "the pieces into the piece buffer"),
         (cf.enc_in_ctr, cv.enc_in_ctr, "their length into the piece buffer"),
         (cf.in_end, cv.in_end, "the end flag into the piece buffer"),
         (cf.valid_in, cv.valid_in, "the piece buffer's write strobe"),
         (cf.latch_output, top.latch_output, "the piece buffer's read strobe"),
         (top.enc_out, cf.enc_out, "the output pieces"), (top.enc_out_ctr, cf.enc_out_ctr, "their length", conv.bit_length()),
         (top.valid_out, cf.valid_out, "the output valid flag"), (top.out_end, cf.out_end, "the output end flag")]
    for i in range(ps):
        p.append((i1.pixels_in[i], top.pixels_in[i], "sample %d" % i))
    chain(rep, top, cut, p)


def integration3(rep, bd, ps, conv, outw, buf, axi):
    top = make_cfg("integration_3", "Integration3", cfg(
        bit_depth=bd, pixels_per_cycle=ps, converter=conv, out_bits=outw, vbits_to_cbits_buffer_size=buf,
        support_axi_lite=axi))
    i2, vb = attr(top, "integration_2"), attr(top, "vbits_to_cbits")
    cut = [i2.enc_out, i2.enc_out_ctr, i2.valid_out, i2.out_end, i2.nready, vb.latch_input, vb.data_out,
           vb.valid_out, vb.end_out]
    p = [(i2.latch_output, vb.latch_input, "the read strobe"), (vb.enc_in, i2.enc_out, "the pieces", conv),
         (vb.enc_in_ctr, i2.enc_out_ctr, "their length", conv.bit_length()), (vb.in_end, i2.out_end, "the end flag"),
         (vb.valid_in, i2.valid_out, "the valid flag"), (vb.busy_in, top.busy_in, "the receiver's busy"),
         (i2.valid_in, top.valid_in, "the input valid flag"), (top.nready, i2.nready, "not-ready"),
         (top.data_out, vb.data_out, "the output word"), (top.valid_out, vb.valid_out, "the output valid flag"),
         (top.end_out, vb.end_out, "the output end flag")]
    for i in range(ps):
        p.append((i2.pixels_in[i], top.pixels_in[i], "sample %d" % i))
    chain(rep, top, cut, p)


def beta_parts(top):
    i3, f1, f2, mk = (attr(top, n) for n in ("integration_3", "fix_0xff", "fix_0xff2", "markers"))
    cut = [i3.data_out, i3.valid_out, i3.end_out, i3.nready, f1.data_out, f1.data_out_ctr, f1.valid_out,
           f1.end_out, f1.o_busy, f2.data_out, f2.valid_out, f2.end_out, f2.o_busy, mk.data_out, mk.valid_out,
           mk.end_out, mk.o_busy]
    fend = attr(i3, "integration_2.integration_1.fend_out")
    p = [(i3.valid_in, top.valid_in, "the input valid flag"),
         (i3.busy_in, f1.o_busy, "the first stuffing stage's busy"),
         (f1.data_in, i3.data_out, "the coded word"), (f1.valid_in, i3.valid_out, "its valid flag"),
         (f1.end_in, i3.end_out, "its end flag"), (f1.i_busy, f2.o_busy, "the second stuffing stage's busy"),
         (f2.data_in, f1.data_out, "the stuffed word"), (f2.data_in_ctr, f1.data_out_ctr, "its length"),
         (f2.valid_in, f1.valid_out, "the stuffed word's valid flag"),
         (f2.end_in, f1.end_out, "the stuffed word's end flag"), (f2.i_busy, mk.o_busy, "the marker stage's busy"),
         (mk.data_in, f2.data_out, "the word to the marker stage"),
         (mk.valid_in, f2.valid_out, "the valid flag to the marker stage"),
         (mk.end_in, f2.end_out, "the end flag to the marker stage"),
         (mk.force_end_in, fend, "the time-out to the marker stage"),
         (mk.i_busy, top.busy_in, "the receiver's busy"),
         (top.data_out, mk.data_out, "the output word"), (top.end_out, mk.end_out, "the output end flag"),
         (top.nready, i3.nready, "not-ready")]
    cut = cut + [fend]
    ar = attr(top, "auto_reset")

    def vout(leaf):
        return (b_and([leaf(mk.valid_out)[0], neg(leaf(ar.reset_out)[0])]),)
    p.append((top.valid_out, vout, "the output valid flag"))
    return i3, cut + [ar.reset_out], p


def beta(rep):
    top = make("beta_integration", "BetaIntegration")
    i3, cut, p = beta_parts(top)
    p += [(i3.pixels_in[0], top.pixel_in1, "sample 0"), (i3.pixels_in[1], top.pixel_in2, "sample 1")]
    chain(rep, top, cut, p)


def micro(rep):
    top = make("micro_integration", "MicroIntegration")
    i3, cut, p = beta_parts(top)
    p += [(i3.pixels_in[0], top.pixel_in, "the sample")]
    chain(rep, top, cut, p)


def field(s, a, b):
    return lambda leaf: leaf(s)[a:b]


STREAMS = {
    "beta": ("beta_integration_axistream", "BetaIntegrationAxiStream", [("pixel_in1", 20, 32), ("pixel_in2", 8, 20)]),
    "micro": ("micro_integration_axistream", "MicroIntegrationAxiStream", [("pixel_in", 0, 12)]),
    "four": ("integration_3_axi_stream", "Integration3AxiStream",
             [("pixels_in[%d]" % i, 12 * i, 12 * i + 12) for i in range(4)]),
}


def stream_top(rep, which):
    """the AXI-stream wrappers: samples are the documented bit fields; handshakes are passed on"""
    mod, cls, fields = STREAMS[which]
    top = make(mod, cls)
    t = attr(top, "top")
    cut = [t.data_out, t.valid_out, t.end_out, t.nready]
    p = [(attr(t, n), field(top.s_tdata, a, b), "sample %d" % i) for i, (n, a, b) in enumerate(fields)]
    p += [(t.valid_in, top.s_tvalid, "the input valid flag"), (top.s_tready, flag0(t.nready), "the input ready"),
          (top.m_tdata, t.data_out, "the output word"), (top.m_tvalid, t.valid_out, "the output valid flag"),
          (top.m_tlast, t.end_out, "the output last flag"), (t.busy_in, flag0(top.m_tready), "the output back-pressure")]
    chain(rep, top, cut, p)


def fifo_top(rep, which):
    """the wrappers behind a 64-bit FIFO"""
    lvds = which == "lvds"
    top = make("beta_integration_fifo_lvds" if lvds else "beta_integration_fifo_axistream",
               "BetaIntegrationFIFOLVDS" if lvds else "BetaIntegrationFIFOAxiStream")
    t, b = attr(top, "top"), attr(top, "b64_b32")
    cut = [t.data_out, t.valid_out, t.end_out, t.nready, b.data_out, b.valid_out, b.o_busy]
    p = [(b.data_in, top.s_tdata, "the 64-bit word"), (b.valid_in, top.s_tvalid, "the input valid flag"),
         (top.s_tready, flag0(b.o_busy), "the input ready"), (b.i_busy, t.nready, "not-ready to the narrower"),
         (t.valid_in, b.valid_out, "the sample pair's valid flag"),
         (t.pixel_in1, field(b.data_out, 12, 24), "sample 0"), (t.pixel_in2, field(b.data_out, 0, 12), "sample 1")]
    if lvds:
        w = attr(top, "b16_b40")
        cut += [w.data_out, w.valid_out, w.o_busy]
        p += [(w.data_in, t.data_out, "the word to the widener"), (w.valid_in, t.valid_out, "its valid flag"),
              (t.busy_in, w.o_busy, "the widener's busy"), (top.m_tdata, w.data_out, "the output word"),
              (top.m_tvalid, w.valid_out, "the output valid flag"),
              (w.i_busy, flag0(top.m_tready), "the output back-pressure")]
    else:
        p += [(top.m_tdata, t.data_out, "the output word"), (top.m_tvalid, t.valid_out, "the output valid flag"),
              (top.m_tlast, t.end_out, "the output last flag"),
              (t.busy_in, flag0(top.m_tready), "the output back-pressure")]
    chain(rep, top, cut, p)


def axi_bridge(rep):
    """AXI3 to AXI-lite: every channel is passed on; a response carries its transfer's id"""
    top = make("axi_lite", "AxiLite")
    so, si, wo, wi = top.s_axi_ro, top.s_axi_ri, top.s_axi_wo, top.s_axi_wi
    mi, mo, vi, vo = top.m_axi_ri, top.m_axi_ro, top.m_axi_wi, top.m_axi_wo
    p = [(mo.araddr, si.araddr, "read address"), (mo.arprot, si.arprot, "read protection"),
         (mo.arvalid, si.arvalid, "read address valid"), (so.arready, mi.arready, "read address ready"),
         (so.rdata, mi.rdata, "read data"), (so.rresp, mi.rresp, "read response"), (so.rvalid, mi.rvalid, "read valid"),
         (mo.rready, si.rready, "read ready"), (so.rlast, lambda leaf: (1,), "read last"),
         (vo.awaddr, wi.awaddr, "write address"), (vo.awprot, wi.awprot, "write protection"),
         (vo.awvalid, wi.awvalid, "write address valid"), (wo.awready, vi.awready, "write address ready"),
         (vo.wdata, wi.wdata, "write data"), (vo.wstrb, wi.wstrb, "write strobes"),
         (vo.wvalid, wi.wvalid, "write valid"), (wo.wready, vi.wready, "write ready"),
         (wo.bresp, vi.bresp, "write response"), (wo.bvalid, vi.bvalid, "response valid"),
         (vo.bready, wi.bready, "response ready"), (top.m_axi_aclk, top.s_axi_aclk, "clock"),
         (top.m_axi_areset_n, top.s_axi_areset_n, "reset")]
    d = chain(rep, top, [], p)
    for out, src, valid, ready, what in ((so.rid, si.arid, si.arvalid, mi.arready, "read"),
                                         (wo.bid, wi.awid, wi.awvalid, vi.awready, "write")):
        regs = [s for s in d.cone([out]) if d.is_reg(s)]
        if not rep.check(d.is_reg(out) and all(s is out for s in regs), "own-id", "%s, %s" % (cname(top), what),
                         lambda: "the %s id is not remembered from its own transfer alone (%s); %s"
                         % (what, ", ".join(s.name for s in regs), d.where(out))):
            continue
        old, new = word("old", out.width), word("new", src.width)
        for v in (0, 1):
            for r in (0, 1):
                inp = {id(s): word("in:" + s.name, s.width) for s in d.sigs.values() if id(s) not in d.drivers}
                inp.update({id(src): new, id(valid): (v,), id(ready): (r,)})
                for env, got in cases(lambda env: Ctx(d, {id(out): old}, inp, env).next(out)):
                    rep.check(eqw(env, got, new if v and r else old), "own-id", "%s, %s" % (cname(top), what),
                              lambda: "with valid %d and ready %d the %s id becomes %s; %s"
                              % (v, r, what, bits_str(got), d.where(out)))


def fullaxi(rep):
    """memory -> reader -> FIFO -> b64_b32 -> core -> b16_b64 -> FIFO -> writer -> memory"""
    top = make("beta_integration_fullaxi", "BetaIntegrationFullAxi")
    t, gr, gw, rd, wr, nb, wb, ctl, rf, wf = (attr(top, n) for n in (
        "top", "address_gen_read", "address_gen_write", "axihp_reader", "axihp_writer", "b64_b32", "b16_b64",
        "dma_axi_lite", "reader_fifo", "writer_fifo"))
    cut = [t.data_out, t.valid_out, t.end_out, t.nready, gr.address_o, gr.address_valid, gw.address_o, gw.address_valid,
           rd.data_out, rd.data_enable, rd.addr_enable, wr.data_enable, wr.addr_enable, nb.data_out, nb.valid_out,
           nb.o_busy, wb.data_out, wb.valid_out, wb.end_out, wb.o_busy, ctl.read_addr, ctl.write_addr, ctl.start,
           rf.data_out, rf.valid_out, rf.writable16, wf.data_out, wf.readable16, wf.writable]

    def go(leaf):
        return (b_and(list(leaf(ctl.start))),)
    p = [(gr.address_latch, rd.addr_enable, "the read address strobe"), (gr.starting_address, ctl.read_addr, "the read start"),
         (gw.address_latch, wr.addr_enable, "the write address strobe"),
         (gw.starting_address, ctl.write_addr, "the write start"), (rd.enable, go, "the reader's enable"),
         (wr.enable, go, "the writer's enable"), (rd.data_full, flag0(rf.writable16), "the reader's room flag"),
         (rd.addr_in, gr.address_o, "the read address"), (wr.addr_in, gw.address_o, "the write address"),
         (rf.data_in, rd.data_out, "the word to the reader FIFO"), (rf.valid_in, rd.data_enable, "its strobe"),
         (rf.read, flag0(nb.o_busy), "the reader FIFO's read strobe"), (nb.data_in, rf.data_out, "the 64-bit word"),
         (nb.valid_in, rf.valid_out, "its valid flag"), (nb.i_busy, t.nready, "not-ready to the narrower"),
         (t.valid_in, nb.valid_out, "the sample pair's valid flag"), (t.busy_in, wb.o_busy, "the widener's busy"),
         (t.pixel_in1, field(nb.data_out, 0, 12), "sample 0"), (t.pixel_in2, field(nb.data_out, 12, 24), "sample 1"),
         (wb.data_in, t.data_out, "the coded word"), (wb.valid_in, t.valid_out, "its valid flag"),
         (wb.end_in, t.end_out, "its end flag"), (wb.i_busy, flag0(wf.writable), "the writer FIFO's room"),
         (wf.data_in, wb.data_out, "the word to the writer FIFO"), (wf.valid_in, wb.valid_out, "its strobe"),
         (wf.read, wr.data_enable, "the writer FIFO's read strobe"), (wr.data_in, wf.data_out, "the word to the writer"),
         (wr.data_empty, flag0(wf.readable16), "the writer's data flag"),
         (wr.write_strobe, lambda leaf: (1,) * 8, "the byte strobes")]
    d = chain(rep, top, cut, p)
    # addresses stop when all bursts were requested
    for gen, eng, n, what in ((gr, rd, 196608, "read"), (gw, wr, 131072, "write")):
        cnts = [s for s in d.cone([eng.addr_empty]) if d.is_reg(s) and s.width > 8 and not d.is_cut(s)]
        if not rep.check(len(cnts) == 1, "bursts-per-frame", "%s, %s" % (cname(top), what), "no burst counter stops "
                         "the %s addresses; %s" % (what, d.where(eng.addr_empty))):
            continue
        cnt, = cnts
        for k in (0, 1, n - 1, n):
            for av in (0, 1):
                for en in (0, 1):
                    if k == n and en:
                        continue
                    inp = {id(s): word("in:" + s.name, s.width) for s in d.sigs.values()
                           if id(s) not in d.drivers or d.is_cut(s)}
                    inp.update({id(gen.address_valid): (av,), id(eng.addr_enable): (en,)})

                    def run(env):
                        c = Ctx(d, {id(cnt): const_word(k, cnt.width)}, inp, env)
                        return c.get(eng.addr_empty), c.next(cnt)
                    for env, (em, nx) in cases(run):
                        rep.check(env.subw(em) == (int(not av or k == n),), "bursts-per-frame",
                                  "%s, %s" % (cname(top), what), lambda: "after %d %s addresses the engine is told %s; %s"
                                  % (k, what, bits_str(em), d.where(eng.addr_empty)))
                        rep.check(env.subw(nx) == const_word(k + (1 if av and en else 0), cnt.width), "bursts-per-frame",
                                  "%s, %s" % (cname(top), what), lambda: "the count of %s addresses goes from %d to %s; %s"
                                  % (what, k, bits_str(nx), d.where(cnt)))
