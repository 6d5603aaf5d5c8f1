"""Reset between frames and the frame time-out."""
from lib import *
from count import Counters, Space, fixpoint, explicit, CannotDecide, F
from wires import wired


def force_end(rep):
    """the time-out: not before `allowed_cycles` cycles after the first group, at most 4 after"""
    LATE = 4
    top = make_cfg("force_end", "ForceEnd", {})
    # ghosts: T cycles since the first group, L cycles left of the allowed ones
    cn = Counters(rep, top, [top.fend], ["T", "L"])
    name = cname(top)
    allowed = (F(0), {0: F(1), 1: F(1)})
    ups = [(F((1 << 24) - 1), {0: F(-1), 1: F(-1)})]

    def classes(plain, space, least):
        ph, fired = plain
        if ph != "run":
            return [(plain, space, (list(least), ups))]
        out = []
        m = space.meet(0, {1: F(1)})
        if m is not None and least[1] <= 0:
            out.append((("run0", fired), m, ([least[0], 0], ups)))
        if space.point[1] >= 1 or any(d[1] for _, d in space.dirs):
            out.append((("run1", fired), space, ([least[0], 1], ups)))
        return out

    def moves(plain):
        return [(i, {id(top.valid_in): i, id(top.allowed_cycles): allowed}) for i in (0, 1)]
    keep = [(F(0), {0: F(1)}), (F(0), {1: F(1)})]

    def step(v, plain, i):
        ph, fired = plain
        o = v.get(top.fend)
        o = None if o is None else o[0]
        W = cn.d.where(top.fend)
        if ph == "idle":
            ok = rep.check(o == 0, "not-early", name + ", fend", lambda: "the time-out is %s before any group "
                           "was accepted; %s" % (o, W))
            return (("run" if i else "idle", 0), keep) if ok else None
        if ph in ("run0", "run1"):
            ok = rep.check(o == 0, "not-early", name + ", fend", lambda: "the time-out is %s although the "
                           "allowed cycles have not passed; %s" % (o, W))
            if not ok:
                return None
            if ph == "run0":
                return ("late1", 0), keep
            return ("run", 0), [(F(1), {0: F(1)}), (F(-1), {1: F(1)})]
        j = int(ph[4:])
        ok = rep.check(o is not None, "fires", name + ", fend", lambda: "undetermined time-out; " + W)
        ok = ok and rep.check(o == 1 or not fired, "stays", name + ", fend",
                              lambda: "the time-out is withdrawn before the reset; " + W)
        ok = ok and rep.check(o == 1 or j < LATE, "fires", name + ", fend",
                              lambda: "the time-out has not fired %d cycles after the allowed ones; %s" % (j, W))
        if not ok:
            return None
        return ("late%d" % min(j + 1, LATE + 1), int(o)), keep
    # allowed_cycles of at least one
    try:
        t = fixpoint(cn, [(("idle", 0), Space([0, 1], [[0, 1]]))], classes, moves, step)
    except CannotDecide:
        for n in (1, 7, 40):
            few_cycles(rep, top, n, LATE)
        if rep.bad:
            return
        raise
    rep.sample("ForceEnd: every allowed_cycles value, %d control states" % len(t))


def few_cycles(rep, top, n, late):
    """the same for one number of allowed cycles: plain is the cycles since the first group and the output"""
    name = cname(top)

    def moves(plain):
        return [(i, {id(top.valid_in): i, id(top.allowed_cycles): n}) for i in (0, 1)]

    def step(v, plain, i):
        t, fired = plain
        o = v.get(top.fend)
        if o is None:
            return None
        o = int(o[0])
        what = "%d allowed cycles: %s cycles after the first group" % (n, t) if t is not None else "before any group"
        ok = rep.check(not o or t is not None and t >= n, "not-early", name + ", fend", lambda: "the time-out is 1 " + what)
        ok = ok and rep.check(o or not fired, "stays", name + ", fend", lambda: "the time-out is withdrawn, " + what)
        ok = ok and rep.check(o or t is None or t < n + late, "fires", name + ", fend",
                              lambda: "the time-out has not fired: " + what)
        if not ok:
            return None
        return ((0 if i else None) if t is None else min(t + 1, n + late + 1), o), []
    explicit(rep, top, [top.fend], [(None, 0)], moves, step)


TOPS = {"beta": ("beta_integration", "BetaIntegration"), "micro": ("micro_integration", "MicroIntegration")}


def auto_reset(rep, which):
    """the end word's transfer resets the coding domain in the next cycle, for one cycle, and nothing
    is delivered in it"""
    mod, cls = TOPS[which]
    top = make(mod, cls)
    clk = module("clk_domains")
    ar = attr(top, "auto_reset")
    mk = attr(top, "markers")
    i2 = attr(top, "integration_3.integration_2")
    W = cname(top)
    cut = [ar.reset_out, mk.valid_out, mk.end_out, attr(top, "integration_3.nready")]
    d = Design(top, cut)
    rep.stat(d)
    rst, full = attr(clk, "CORE.rst"), attr(clk, "FULL.rst")

    def both(leaf):
        return (b_or([leaf(ar.reset_out)[0], leaf(full)[0]]),)
    wired(rep, d, [(rst, both, "the coding domain's reset"),
                   (clk.CORE.clk, clk.FULL.clk, "the coding domain's clock")], W)
    # the reset register: next value, and it clears itself
    v, e, b = top.valid_out, top.end_out, top.busy_in

    def run(env):
        inputs = {id(s): word("free:" + s.name, s.width) for s in d.sigs.values()
                  if id(s) not in d.drivers and id(s) not in d.bb_out or d.is_cut(s)}
        st = {id(s): word("r:%s%d" % (s.name, i), s.width) for i, s in enumerate(d.regs())}
        c = Ctx(d, st, inputs, env)
        inputs[id(ar.reset_out)] = (0,)
        ov, oe, busy = c.get(v)[0], c.get(e)[0], c.get(b)[0]
        # the register's next value, seen through its (cut) output
        n = c.run(ar.reset_out, d.drivers[id(ar.reset_out)][0], (0,))
        return n, (b_and([ov, oe, neg(busy)]),)
    drv = d.drivers.get(id(ar.reset_out))
    if rep.check(bool(drv) and drv[0].domain == "sync" and not ar.reset_out.reset_less, "one-cycle",
                 W + ", auto_reset.reset_out", "the reset request is not a register cleared by that reset; "
                 + d.where(ar.reset_out)):
        for env, (n, want) in cases(run):
            rep.check(eqw(env, n, want), "reset-after-end", W + ", auto_reset.reset_out",
                      lambda: "the reset is requested when %s, not when the end word is taken (%s); %s"
                      % (bits_str(env.subw(n)), bits_str(env.subw(want)), d.where(ar.reset_out)))

    def run(env):
        inputs = {id(s): word("free:" + s.name, s.width) for s in d.sigs.values()
                  if id(s) not in d.drivers and id(s) not in d.bb_out or d.is_cut(s)}
        inputs[id(ar.reset_out)] = (1,)
        return Ctx(d, {}, inputs, env).get(v)
    for env, w in cases(run):
        rep.check(env.subw(w) == (0,), "silent-reset", W + ", valid_out",
                  lambda: "a word can be delivered in the reset cycle, after the frame's end word; "
                  + d.where(v))


# which analyses settle whether a register the reset leaves alone can be noticed: they start from an
# arbitrary value of every such register
BY_FILE = {
    "predictor_p1_c4_pix1_2.py": lambda ps: [("stages.predictor", 12, ps), ("stages.lockstep", "predictor", 12, ps)],
    "difference.py": lambda ps: [("stages.lockstep", "difference", 12, ps)],
    "normalize.py": lambda ps: [("stages.lockstep", "normalize", 12, ps)],
    "encode.py": lambda ps: [("stages.encode", 12, ps, ps == 1), ("stages.lockstep", "encode", 12, ps, ps == 1)],
    "merge.py": lambda ps: [("stages.lockstep", "merge", 12, ps)],
    "signals.py": lambda ps: [("count.signals", ps)],
    "force_end.py": lambda ps: [("reset.force_end",)],
    "integration_2.py": lambda ps: [("frame.gate", 12, ps)],
    "lj92_pipeline_fifo.py": lambda ps: [("frame.pipeline_fifo", 12, ps, 512)],
    "converter_fifo.py": lambda ps: [("frame.piece_fifo", 12, 2, 30, 512)],
    "converter.py": lambda ps: [("stream.converter", 12, 2, 30)],
    "vbits_to_cbits.py": lambda ps: [("stream.vbits", 4, 8, 12)],
    "fix_0xff.py": lambda ps: [("stream.fix_0xff",)],
    "fix_0xff2.py": lambda ps: [("stream.fix_0xff2",)],
    "markers.py": lambda ps: [("frame.markers",)],
}


def left_alone(rep, which):
    """(internal) registers of the output cone that the reset of their domain does not touch"""
    top = make(*TOPS[which])
    d, cone, _, stop = output_cone(top)
    for s in cone:
        if d.is_reg(s) and s.reset_less and not any(s is x for x in stop):
            rep.notes.append([s.name, loc(s.src_loc).rpartition(":")[0], d.where(s)])


def reset_less(rep, which):
    """a register without reset is no defect if nothing can notice its old value"""
    (r,) = run_units([("left_alone", "reset.left_alone", (which,))], 1)
    if "error" in r:
        raise AnalysisError(r["error"])
    W = cname(make(*TOPS[which]))
    rep.count("no-reset-unnoticed", len(r["notes"]) or 1)
    files = {}
    for name, path, where in r["notes"]:
        files.setdefault(os.path.basename(path), []).append((name, where))
    ps = 1 if which == "micro" else 2
    for f, regs in sorted(files.items()):
        us = BY_FILE.get(f)
        if us is None:
            rep.fail("no-reset-unnoticed", "%s, %s" % (W, regs[0][0]), "%s is kept over the reset between frames; %s"
                     % (", ".join(n for n, _ in regs), regs[0][1]))
            continue
        for x in run_units([("u", u[0], u[1:]) for u in us(ps)], 2):
            if "error" in x:
                raise AnalysisError(x["error"])
            for b in x["bad"][:1]:
                rep.fail("no-reset-unnoticed", "%s, %s" % (W, regs[0][0]), "%s kept over the reset between frames (%s) "
                         "changes the next frame: [%s] %s" % (", ".join(n for n, _ in regs), regs[0][1], b["rule"],
                                                              b["detail"]))


def output_cone(top):
    d = Design(top)
    i1 = attr(top, "integration_3.integration_2.integration_1")
    axi = hasattr(i1, "core_axi_lite") and top.config["support_axi_lite"]
    rf = i1.core_axi_lite if axi else attr(i1, "register_file")
    outs = [top.data_out, top.valid_out, top.end_out, top.nready]
    stop = [rf.width, rf.height, rf.allowed_cycles] + ([rf.wp_addr, rf.wp_data, rf.wp_en, rf.rp_addr] if axi else [])
    todo, seen = list(outs), {}
    cone = []
    while todo:
        s = todo.pop()
        if id(s) in seen:
            continue
        seen[id(s)] = s
        cone.append(s)
        if any(s is x for x in stop):
            continue
        todo.extend(d.deps(s))
        if id(s) in d.bb_out:
            todo.extend(d.bb_out[id(s)][0].ins.values())
    return d, cone, rf, stop


def domains(rep, which):
    """what a frame leaves behind: only the settings"""
    mod, cls = TOPS[which]
    top = make(mod, cls)
    d, cone, rf, stop = output_cone(top)
    rep.stat(d)
    W = cname(top)
    seen = {id(s) for s in cone}
    n = 0
    for s in cone:
        if d.is_reg(s) and not any(s is x for x in stop):
            n += 1
            rep.check(d.drivers[id(s)][0].domain == "sync", "frame-state-reset", "%s, %s" % (W, s.name),
                      lambda: "%s is kept over the reset between frames (domain %s) and influences the next "
                      "frame's output; %s" % (s.name, d.drivers[id(s)][0].domain, d.where(s)))
    for bb in d.bbs:
        if any(id(x) in seen for x in bb.outs.values()) and bb.kind.startswith("SyncFIFO"):
            rep.check(bb.domain == "sync", "frame-state-reset", "%s, FIFO" % W, "a FIFO keeps its contents")
    rep.count("registers-in-cone", n)
    m = 0
    for s in [rf.width, rf.height, rf.allowed_cycles]:
        for r in d.cone([s]):
            if d.is_reg(r):
                m += 1
                rep.check(d.drivers[id(r)][0].domain == "full", "settings-kept", "%s, %s" % (W, r.name),
                          lambda: "%s, which %s depends on, is cleared between frames; %s"
                          % (r.name, s.name, d.where(r)))
    rep.check(m > 0, "settings-kept", W, "no setting registers found")
    rep.sample("%s: %d registers in the output cone, %d setting registers" % (cls, n, m))


def fullaxi_tail(rep):
    """the reset at a frame's end discards nothing on the way to memory"""
    top = make("beta_integration_fullaxi", "BetaIntegrationFullAxi")
    blocks = [(n, attr(top, n)) for n in ("b16_b64", "writer_fifo", "axihp_writer", "address_gen_write")]
    ins = {"b16_b64": ["data_in", "valid_in", "i_busy", "end_in"],
           "writer_fifo": ["data_in", "end_in", "valid_in", "read"],
           "axihp_writer": ["enable", "data_in", "data_empty", "write_strobe", "addr_in", "addr_empty"],
           "address_gen_write": ["address_latch", "starting_address"]}
    outs = {"b16_b64": ["data_out", "valid_out", "o_busy"], "writer_fifo": ["data_out", "readable16", "writable"],
            "axihp_writer": ["data_enable", "addr_enable"], "address_gen_write": ["address_o", "address_valid"]}
    d = Design(top, [attr(b, i) for n, b in blocks for i in ins[n]])
    rep.stat(d)
    clr = attr(top, "top.auto_reset").reset_out
    for n, b in blocks:
        sigs = d.cone([attr(b, o) for o in outs[n]])
        ids = {id(s) for s in sigs}
        held = [s for s in sigs if d.is_reg(s) and not d.is_cut(s) and not s.reset_less
                and d.drivers[id(s)][0].domain == "sync"]
        kept = [bb for bb in d.bbs if bb.kind.startswith("SyncFIFO") and bb.domain == "sync"
                and any(id(x) in ids for x in bb.outs.values())]
        W = "%s, %s" % (cname(top), n)
        rep.check(not held and not kept, "frame-end-discards", W, lambda: "%s holds data of the frame in %s, which %s "
                  "clears; %s" % (n, ", ".join([s.name for s in held] + ["its FIFO"] * len(kept)), clr.name,
                                  d.where(attr(b, outs[n][0]))))


def fullaxi_port(rep):
    """the reset at a frame's end disturbs neither the DMA port's transfers nor its registers"""
    top = make("beta_integration_fullaxi", "BetaIntegrationFullAxi")
    p = attr(top, "dma_axi_lite")
    d = Design(top)
    rep.stat(d)
    outs = [p.s_axi_ro_.arready, p.s_axi_ro_.rvalid, p.s_axi_ro_.rdata, p.s_axi_ro_.rresp, p.s_axi_wo_.awready,
            p.s_axi_wo_.wready, p.s_axi_wo_.bvalid, p.s_axi_wo_.bresp, p.read_addr, p.write_addr, p.start]
    ins = [getattr(p, "in%d" % i) for i in range(1, 10)]
    held = [s for s in d.cone(outs, ins) if d.is_reg(s) and not any(s is x for x in ins) and not s.reset_less
            and d.drivers[id(s)][0].domain == "sync"]
    rep.check(not held, "port-over-reset", "%s, dma_axi_lite" % cname(top), lambda: "the reset between frames clears "
              "%s of the DMA control port; %s" % (", ".join(s.name for s in held), d.where(p.start)))


def defaults(rep):
    """without a register port: frames of 4096 by 3072 samples, and a time-out that leaves a whole frame its groups"""
    top = make(*TOPS["beta"])
    i1 = attr(top, "integration_3.integration_2.integration_1")
    sg, fe = attr(i1, "signals"), attr(i1, "force_end")
    ps = len(attr(i1, "pixels_in"))
    d = Design(top)
    rep.stat(d)
    sigs = [sg.width, sg.height, fe.allowed_cycles]
    regs = [s for s in d.cone(sigs) if d.is_reg(s)]
    st = {id(s): const_word(s.reset, s.width) for s in regs}
    for _ in range(4):
        c = Ctx(d, st, {}, Env())
        nxt = {id(s): c.next(s) for s in regs}
        if nxt == st:
            break
        st = nxt
    vals = []
    for s in sigs:
        w = Ctx(d, st, {}, Env()).get(s)
        if nxt != st or not all(type(b) is int for b in w):
            raise AnalysisError("%s does not settle on a constant" % s.name)
        vals.append(sum(b << i for i, b in enumerate(w)))
    w, h, a = vals
    W = cname(top)
    rep.check((w, h) == (4096, 3072), "default-frame", W + ", width and height", lambda: "frames have %d by %d samples, must have "
              "4096 by 3072; %s" % (w, h, d.where(sg.width)))
    rep.check(a * ps >= w * h, "default-time-out", W + ", allowed_cycles", lambda: "a frame has %d groups, but only %d cycles are "
              "allowed for it; %s" % (w * h // ps, a, d.where(fe.allowed_cycles)))
    rep.sample("BetaIntegration: %d by %d, %d cycles allowed for %d groups" % (w, h, a, w * h // ps))
