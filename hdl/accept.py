"""Every configuration the constructors accept keeps the guarantees (the others are rejected when the
hardware is generated)."""
from lib import *
from stages import cfg


def accepted(mod, cls, c):
    """the module's own constructor takes the configuration"""
    try:
        make_cfg(mod, cls, c)
        return True
    except AssertionError:
        return False


def sub(rep, what, tag, fn, *args):
    """an analysis of an accepted configuration; its findings are findings about the acceptance"""
    r = Rep(what)
    try:
        fn(r, *args)
    except (AnalysisError, ElabError, AssertionError) as e:
        r.fail("unusable", what, "%s: %s" % (type(e).__name__, e))
    rep.count("accepted-configuration")
    rep.count("obligations-per-configuration", sum(r.checked.values()))
    for b in r.bad[:1]:
        rep.fail("accepted-configuration", tag, "%s is accepted, but [%s] %s: %s"
                 % (what, b["rule"], b["construct"], b["detail"]))
    return not r.bad


def stored_groups(rep, bd, ps):
    """pipeline buffer depths"""
    from frame import pipeline_fifo
    n = 0
    for depth in list(range(0, 64)) + [100, 128, 256, 512, 1000]:
        c = cfg(bit_depth=bd, pixels_per_cycle=ps, LJ92_fifo_depth=depth)
        if accepted("lj92_pipeline_fifo", "LJ92PipelineFifo", c):
            n += 1
            if not sub(rep, "LJ92_fifo_depth=%d with %d samples per cycle" % (depth, ps),
                       "migen_src/lj92_pipeline_fifo.py:LJ92PipelineFifo", pipeline_fifo, bd, ps, depth):
                return
        else:
            rep.count("rejected-configuration")
    rep.check(n > 0, "some-accepted", "migen_src/lj92_pipeline_fifo.py:LJ92PipelineFifo", "no depth is accepted")
    rep.sample("bd=%d ps=%d: %d accepted depths" % (bd, ps, n))


def stored_pieces(rep, bd, ps, conv):
    """piece buffer depths"""
    import frame
    import stream
    memo = {}

    def late(r, bd, ps, conv, conv_=stream.converter):
        k = (bd, ps, conv)
        if k not in memo:
            memo[k] = conv_(r, bd, ps, conv)
        return memo[k]
    keep, stream.converter = stream.converter, late
    n = 0
    try:
        for depth in list(range(0, 48)) + [64, 100, 256, 512, 1024]:
            c = cfg(bit_depth=bd, pixels_per_cycle=ps, converter=conv, converter_fifo_depth=depth)
            if accepted("converter_fifo", "ConverterFifo", c):
                n += 1
                if not sub(rep, "converter_fifo_depth=%d with converter=%d, %d samples per cycle of %d bits"
                           % (depth, conv, ps, bd), "migen_src/converter_fifo.py:ConverterFifo", frame.piece_fifo,
                           bd, ps, conv, depth):
                    return
            else:
                rep.count("rejected-configuration")
    finally:
        stream.converter = keep
    rep.check(n > 0, "some-accepted", "migen_src/converter_fifo.py:ConverterFifo", "no depth is accepted")
    rep.sample("bd=%d ps=%d conv=%d: %d accepted depths" % (bd, ps, conv, n))


def packer(rep, conv, outw, bufs):
    """bit packer buffers"""
    from stream import vbits
    n = 0
    for buf in bufs:
        c = cfg(converter=conv, out_bits=outw, vbits_to_cbits_buffer_size=buf)
        if accepted("vbits_to_cbits", "VBitsToCBits", c):
            n += 1
            if not sub(rep, "vbits_to_cbits_buffer_size=%d with converter=%d, out_bits=%d" % (buf, conv, outw),
                       "migen_src/vbits_to_cbits.py:VBitsToCBits", vbits, conv, outw, buf):
                return
        else:
            rep.count("rejected-configuration")
    rep.sample("converter=%d out_bits=%d: %d of %d buffer sizes accepted" % (conv, outw, n, len(bufs)))


def splitter(rep, bd, ps):
    """piece widths"""
    from stream import converter
    total = min(31, 16 + bd) * ps
    for conv in (0, total - 1, total, total + 1, total + 7):
        c = cfg(bit_depth=bd, pixels_per_cycle=ps, converter=conv)
        if accepted("converter", "Converter", c):
            if not sub(rep, "converter=%d with %d samples per cycle of %d bits" % (conv, ps, bd),
                       "migen_src/converter.py:Converter", converter, bd, ps, conv):
                return
        else:
            rep.count("rejected-configuration")


def samples(rep):
    """bit depths and samples per cycle of the whole core"""
    import stages
    for bd in (0, 1, 2, 8, 16, 17, 18):
        for ps in (0, 1, 2, 3, 4, 5, 8):
            c = cfg(bit_depth=bd, pixels_per_cycle=ps, converter=max(1, 15 * ps))
            try:
                ok = accepted("integration_3", "Integration3", c)
            except Exception as e:
                # no clear rejection, but no hardware either
                rep.count("rejected-configuration")
                continue
            if not ok:
                rep.count("rejected-configuration")
                continue
            tag = "migen_src/integration_3.py:Integration3"
            for f in ("predictor", "difference", "normalize", "encode"):
                if not sub(rep, "bit_depth=%d with %d samples per cycle" % (bd, ps), tag, getattr(stages, f), bd, ps):
                    return


def components(rep):
    """predictor function and number of components: only what is implemented is accepted"""
    for ps in (1, 2, 4):
        for pf in (0, 1, 2, 4, 6, 7):
            for nc in (1, 2, 3, 4, 6):
                c = cfg(bit_depth=12, pixels_per_cycle=ps, predictor_function=pf, num_of_components=nc,
                        converter=15 * ps)
                ok = accepted("integration_1", "Integration1", c)
                rep.check(not ok or (pf, nc) == (1, 4), "implemented-only", "migen_src/integration_1.py:Integration1",
                          "predictor %d with %d components is accepted for %d samples per cycle, but not implemented"
                          % (pf, nc, ps))
