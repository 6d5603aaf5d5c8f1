"""Which units of analysis decide which property."""

PROPS = {}


def prop(pid, technique, units, **kw):
    PROPS[pid] = dict(technique=technique, units=units, **kw)


def bds(tier, quick):
    """the coding stages are analysed for every bit depth in both tiers"""
    return list(range(2, 17))


def U(fn, *args):
    return ("%s(%s)" % (fn, ",".join(map(str, args)))[:150], fn, args)


# ---- C01 prediction ---------------------------------------------------------------------
prop("C01", "typestate fixpoint over the predictor's next-state functions: every register holds a "
     "constant or a provenance token of a ghost sample (left neighbour / previous row's first sample)",
     lambda tier: [U("stages.predictor", bd, ps) for ps in (1, 2, 4) for bd in bds(tier, [2, 12, 16])],
     assumptions=["rows are whole groups of four components (a start-of-row group carries component 0 "
                  "first)", "the first group after reset starts a row"])

# ---- C02 difference coding -----------------------------------------------------------------
prop("C02", "affine bit-provenance abstract interpretation of the subtractor and normalizer, one "
     "transfer obligation per difference class cube",
     lambda tier: [U("stages." + f, bd, ps) for bd in bds(tier, [2, 3, 12, 16])
                   for ps in (1, 2, 4)
                   for f in ("difference", "normalize", "coded_difference")])

# ---- C03 codes ------------------------------------------------------------------------------
prop("C03", "constant propagation of the code table through the encoder (code extracted per class from "
     "the abstract output word), then table rules: prefix-free, no all-ones code, header-representable",
     lambda tier: [U("stages.encode", bd, ps, axi) for bd in bds(tier, [2, 12, 14, 16])
                   for ps in (1, 2, 4) for axi in (False, True)] +
     [U("stages.encode_loaded", bd, ps) for bd in bds(tier, [2, 12, 16]) for ps in (1, 2, 4)])


# ---- C04 merge ------------------------------------------------------------------------------
def merge_units(tier):
    out = []
    for bd in bds(tier, [12, 16]):
        m = min(31, bd + 16)
        two = [(a, b) for a in range(1, m + 1) for b in range(1, m + 1)]
        out.append(U("stages.merge", bd, 2, two))
        vals = [1, 2, 3, 7, 8, 15, 16, 17, m - 1, m]
        four = [(a, b, c, d) for a in (1, m) for b in vals for c in vals for d in vals]
        four += [(7, a, 13, 11) for a in range(1, m + 1)] + [(7, 11, a, 13) for a in range(1, m + 1)] + \
            [(7, 11, 13, a) for a in range(1, m + 1)] + [(a, 11, 13, 7) for a in range(1, m + 1)]
        out.append(U("stages.merge", bd, 4, four))
        out.append(U("stages.merge", bd, 3, [(a, b, c) for a in (1, m) for b in range(1, m + 1) for c in vals]))
        out.append(U("stages.merge", bd, 8, [(5, 3, 9, 11, a, b, 7, 3) for a in vals for b in vals]))
    return out


prop("C04", "bit-provenance abstract interpretation of the merge tree, partitioned on the codeword "
     "lengths: the merged word is the concatenation, bit for bit", merge_units)

# ---- C05 lockstep + wiring --------------------------------------------------------------------
prop("C05", "delay dataflow (valid/end leave every stage with the latency of the data) and connection "
     "rules over the pipeline's port-to-port expressions",
     lambda tier: [U("stages.lockstep", n, bd, ps, False) for bd in bds(tier, [12, 16])
                   for n in ("predictor", "difference", "normalize", "encode", "merge")
                   for ps in (1, 2, 4) if not (n == "merge" and ps == 1)] +
     [U("wires.pipeline", bd, ps, axi) for bd in bds(tier, [12, 16]) for ps in (1, 2, 4)
      for axi in (False, True)])


# ---- C07 repacking ------------------------------------------------------------------------
def pack_units(tier):
    out = [U("stream.converter", 12, 2, 30), U("stream.converter", 12, 4, 48), U("stream.converter", 16, 1, 8),
           U("stream.converter", 12, 1, 15), U("stream.converter", 16, 2, 30), U("stream.converter", 8, 2, 13),
           U("stream.vbits", 15, 16, 41), U("stream.vbits", 4, 8, 12), U("stream.vbits", 9, 8, 24),
           U("stream.vbits", 10, 16, 30)]
    if tier == "thorough":
        out += [U("stream.vbits", 30, 16, 77), U("stream.vbits", 8, 16, 40), U("stream.vbits", 12, 8, 33)]
    return out


prop("C07", "typestate fixpoint: ghost bit queue against the splitter and the bit packer", pack_units)

# ---- C08 stuffing ---------------------------------------------------------------------------
prop("C08", "typestate fixpoint: ghost byte queue against both stuffing modules",
     lambda tier: [U("stream.fix_0xff"), U("stream.fix_0xff2")])


# ---- C06 back-pressure -----------------------------------------------------------------------
def room_units(tier):
    pf = [(12, 2, 512), (12, 4, 128), (12, 1, 512), (16, 1, 25)]
    cf = [(12, 2, 30, 512), (12, 4, 48, 256), (12, 1, 15, 1024)]
    out = [U("frame.gate", 12, ps) for ps in (1, 2, 4)]
    if tier:
        pf += [(bd, ps, dp) for bd in (8, 10, 14, 16) for ps in (1, 2, 4) for dp in (32, 64, 256)]
        cf += [(16, 2, 30, 512), (8, 2, 13, 128), (16, 1, 8, 64), (10, 1, 10, 100)]
    return out + [U("frame.pipeline_fifo", *a) for a in pf] + [U("frame.piece_fifo", *a) for a in cf]


prop("C06", "typestate fixpoint of the accept gate; stop thresholds evaluated over the FIFO level against "
     "pipeline latency (delay dataflow) and the splitter's late writes (fixpoint): a capacity inequality",
     room_units)

prop("C09", "typestate fixpoint: ghost frame protocol against the marker inserter",
     lambda tier: [U("frame.markers")])

prop("C10", "affine-relation analysis (Karr) of the row and column counters against ghost frame position",
     lambda tier: [U("count.signals", ps) for ps in (1, 2, 4)])

# ---- C11 reset and time-out -------------------------------------------------------------
prop("C11", "affine-relation fixpoint of the time-out counter; next-state rules for the reset request; "
     "dependence closure (backward slice) of the outputs against the clock domain of every register",
     lambda tier: [U("reset.force_end"), U("reset.defaults"), U("reset.auto_reset", "beta"), U("reset.auto_reset", "micro"),
                   U("reset.domains", "beta"), U("reset.domains", "micro"),
                   U("reset.reset_less", "beta"), U("reset.reset_less", "micro")])

# ---- C12 AXI-lite port --------------------------------------------------------------------
prop("C12", "typestate fixpoint of the register port against a ghost AXI-lite master and a ghost register map",
     lambda tier: [U("axil.core", bd, dbg) for bd in (list(range(2, 17)) if tier == "thorough" else [2, 4, 8, 12, 14, 16])
                   for dbg in (False, True)] +
     [U("axil.domains", 12, False), U("axil.domains", 12, True)],
     assumptions=["an AXI master keeps valid, address and data until they are taken",
                  "one read and one write at a time (the port answers a transfer before taking the next)"])

# ---- C13 DMA engines ------------------------------------------------------------------------------
prop("C13", "typestate fixpoint with a ghost memory and ghost FIFO against both engines and the address "
     "generators; connection rules; reset-domain slices",
     lambda tier: [U("dma.writer"), U("dma.reader"), U("dma.address_generator", 128), U("wires.fullaxi"),
                   U("reset.fullaxi_tail")],
     assumptions=["an AXI memory answers each write burst once, after its last beat, and sends the read data of a "
                  "burst after taking its address"])

# ---- C14 sample layout and stream handshakes ---------------------------------------------------
prop("C14", "connection rules on the elaborated netlist: every port-to-port expression compared bit for bit",
     lambda tier: [U("wires.stream_top", w) for w in ("beta", "micro", "four")] +
     [U("wires.fifo_top", w) for w in ("lvds", "axis")])

# ---- C15 width converters ------------------------------------------------------------------------
prop("C15", "typestate fixpoint with a ghost queue of units; FIFOs inside are part of the abstract state",
     lambda tier: [U("width.b16_b64"), U("width.b16_b40"), U("width.b64_b32_2"), U("width.b64_b32"),
                   U("width.axihp_fifo")])

# ---- C16 the core's wiring -----------------------------------------------------------------------
prop("C16", "connection rules on the elaborated netlist: every port-to-port expression compared bit for bit",
     lambda tier: [U("wires.integration2", *a) for a in ((12, 2, 30, False), (12, 1, 15, True), (12, 4, 48, False))] +
     [U("wires.integration3", *a) for a in ((12, 2, 30, 16, 77, False), (12, 4, 48, 32, 144, False),
                                            (12, 1, 15, 16, 41, True))] +
     [U("wires.beta"), U("wires.micro")] +
     [U("wires.pipeline", 12, ps, axi) for ps in (1, 2, 4) for axi in (False, True)] +
     [U("frame.gate", 12, ps) for ps in (1, 2, 4)])

# ---- C17 DMA control port and AXI bridge --------------------------------------------------------
prop("C17", "typestate fixpoint of the DMA register port against a ghost AXI-lite master; connection rules for the bridge",
     lambda tier: [U("axil.dma"), U("wires.axi_bridge"), U("reset.fullaxi_port")],
     assumptions=["an AXI master keeps valid, address and data until they are taken",
                  "one read and one write at a time"])

# ---- C18 complete hardware ---------------------------------------------------------------------
def modules():
    import elab
    return elab.modules()


prop("C18", "rules over the elaborated netlist of every module's own generator section: ports, drivers, sources, "
     "combinational cycles (depth-first search of the dependence graph)",
     lambda tier: [U("elab.generated", m) for m in modules()] + [U("elab.buses", k) for k in range(5)])

# ---- C19 accepted configurations -----------------------------------------------------------------
def config_units(tier):
    t = tier == "thorough"
    out = [U("accept.samples"), U("accept.components")]
    out += [U("accept.stored_groups", bd, ps) for bd, ps in ((12, 1), (12, 2), (12, 4)) + (((16, 1), (8, 4)) if t else ())]
    out += [U("accept.stored_pieces", *a) for a in ((12, 2, 30), (12, 4, 48), (12, 1, 15), (2, 1, 18), (16, 1, 8))]
    out += [U("accept.splitter", bd, ps) for bd, ps in ((12, 1), (12, 2), (12, 4), (16, 1), (2, 2))]
    out += [U("accept.packer", 4, 8, tuple(range(6, 16))), U("accept.packer", 6, 8, tuple(range(6, 16)))]
    if t:
        out += [U("accept.packer", 9, 8, tuple(range(9, 28))), U("accept.packer", 12, 8, tuple(range(12, 28))),
                U("accept.packer", 8, 16, tuple(range(16, 40)))]
    return out


prop("C19", "the constructors' own checks evaluated over the configuration space; every accepted configuration is "
     "put through the capacity and fixpoint analyses of its module", config_units)

# ---- C20 stand-alone helpers ---------------------------------------------------------------------
prop("C20", "typestate fixpoint of the delayer against ghost input history; bit provenance of the reverser",
     lambda tier: [U("width.delayer", n) for n in (2, 3, 4, 5, 8, 9, 16, 17, 100)] +
     [U("width.reverser", n, s) for n in (1, 2, 3, 8, 16, 40) for s in (False, True)])

# ---- C21 board software ----------------------------------------------------------------------------
prop("C21", "abstract interpretation of the board software's LLVM IR: bit provenance of every register access, affine "
     "induction over the packing loops, fixpoint of the polling loops; call-order rules for the test program",
     lambda tier: [U("board.core", bd) for bd in range(2, 17)] +
     [U("board.core_refuses"), U("board.dma"), U("board.mapping"), U("board.pack", 64), U("board.pack", 32),
      U("board.clear"), U("board.program")],
     assumptions=["registers are read and written as whole 32-bit words", "library calls behave as documented"])

# ---- C22 debug counters ------------------------------------------------------------------------------
prop("C22", "explicit fixpoint over the control registers in the counters' backward slice against a ghost record of the "
     "conditions of the last cycles; the counters are symbolic words",
     lambda tier: [U("debug.counters", w) for w in ("beta", "micro")])

# ---- C23..C26 liblj92 --------------------------------------------------------------------------------
prop("C23", "bit-provenance abstract interpretation of the difference reader's LLVM IR over a finite partition of pending "
     "bits, code-table lengths, code lengths, classes and places of 0xFF bytes and of the end of the data",
     lambda tier: [U("ljunits.bits", hb) for hb in range(16, 0, -1)],
     assumptions=["an entry of the code table names a class 0..16 and a length from 1 to the table's width",
                  "the samples' loops call the reader only (C24)"])
prop("C24", "affine-relation (Karr) invariants per loop header and class of positions, with the sample's row-cache and tile "
     "addresses and its prediction compared as terms on every path",
     lambda tier: [U("ljunits.glue", "open"), U("ljunits.glue", "frame")] + [U("ljunits.decode", p, many, lin) for many in (1, 0) for p in range(1, 8) for lin in (False, True)],
     assumptions=["positions and sizes do not wrap around", "the tile and the table are at least as long as the caller says"])
prop("C25", "affine-relation (Karr) invariants per loop header and class of positions, with tile and row-cache addresses, the "
     "prediction and the difference class compared as terms on every path",
     lambda tier: [U("ljunits.encode", f, lin) for f in ("writeBody", "frequencyScan") for lin in (False, True)],
     assumptions=["positions and sizes do not wrap around", "the tile and the table are at least as long as the caller says"])
prop("C26", "bit-provenance abstract interpretation of the coding pass's LLVM IR from class lookup to class lookup over every "
     "number of pending bits, code length, class, sign, 0xFF byte and remaining room; header and phases path by path",
     lambda tier: [U("ljunits.emit"), U("ljunits.glue", "header"), U("ljunits.glue", "encode")],
     assumptions=["every class that occurs has a code of 1..16 bits", "width, height and depth fit their header fields"])
prop("C27", "abstract interpretation of the LLVM IR with a ghost walk of the canonical code (length, codes of the length so far, "
     "place in the current code's entries); forms over the ghosts joined at loop headers",
     lambda tier: [U("ljunits.tables", "codes"), U("ljunits.tables", "lookup")],
     assumptions=["the counts fit the header's length field and name a prefix code (T.81 C.2)"])
prop("C28", "linear invariants at the loop headers of the LLVM IR (largest inductive subset of candidate facts), with "
     "ownership of every allocation; obligations at every access entailed by Fourier-Motzkin elimination",
     lambda tier: [U("ljunits.bytes_", "open"), U("ljunits.bytes_", "lj92_decode"), U("ljunits.bytes_", "lj92_close")],
     assumptions=["less than 2^31 - 2^17 bytes of data"])
prop("C29", "path-wise dataflow between loop headers of lj92_open with a ghost for the first byte not yet known to differ "
     "from 0xFF; linear invariants",
     lambda tier: [U("ljunits.bytes_", "segments")],
     assumptions=["less than 2^31 - 2^17 bytes of data"])
