# Read by gen.py.  prop(id, title, statement, over, quantifier text, why tests cannot, files,
#                       mechanism[(name, where)], technique, level note)
IR = ("Decided on the IR nMigen builds from the current sources (every elaborated assignment, switch "
      "and register), by abstract interpretation; nothing is simulated and no solver is used. Trusts "
      "nMigen's elaboration and the models of its FIFO/memory primitives. ")

prop("C01", "Each sample is predicted from its own colour plane",
     "The prediction that accompanies a sample is the previous sample of the same colour component in "
     "the row, and for the first sample of a component in a row it is the first sample of that component "
     "in the row before (half of the sample range, 2^(bit_depth-1), in the first row after reset). The "
     "sample itself is passed on unchanged with its prediction, and cycles without a valid group change "
     "nothing of what later samples are predicted from.",
     ["inputs", "schedules", "configurations"],
     "all sample values, all bit depths, 1, 2 and 4 samples per cycle, every placement of idle cycles "
     "and of row starts",
     "The one predictor test (4 samples per cycle) feeds a few hundred random groups with no gaps; the "
     "1- and 2-sample predictor has no passing test at all.",
     ["migen_src/predictor_p1_c4_pix1_2.py", "migen_src/predictor_p1_c4_px4.py"],
     [("left-neighbour registers", "buff_regs / register_* updates"),
      ("row-start registers and group counter", "ever_pixels, new_row handling")],
     "typestate fixpoint over the predictor's next-state functions in a bit-provenance domain",
     IR + "Registers are tracked as provenance tokens of ghost samples, so the result holds for all "
     "sample values; rows are whole groups of four components.")

prop("C02", "Difference class and value bits follow the lossless JPEG rule",
     "For every sample and prediction the class sent is the bit length of their difference (class 0 for "
     "equality), and the value bits are the low bits of the difference itself when it is positive and of "
     "the difference minus one when it is negative. At 16 bits the difference is taken modulo 2^16, so "
     "that every class lies within the table and a decoder adding modulo 2^16 gets the sample back.",
     ["inputs", "configurations"],
     "all pairs of sample and prediction (2^(2*bit_depth)), every lane, bit depths 2 to 16",
     "The tests draw random pairs at one bit depth and check the subtractor and the normalizer apart; "
     "the rare classes (largest negative, powers of two) are met by luck, and the two stages are never "
     "tested together.",
     ["migen_src/difference.py", "migen_src/normalize.py", "migen_src/integration_1.py"],
     [("subtraction", "Difference.elaborate"), ("priority encoder", "Normalize.elaborate"),
      ("wiring of both differences", "Integration1.elaborate")],
     "abstract interpretation (affine bit-provenance domain), one transfer obligation per class cube",
     IR + "One abstract run per class and sign covers all its values.")

prop("C03", "Codewords come from a valid prefix code",
     "For each difference class the encoder emits that class's code followed by exactly the class's value "
     "bits, most significant first, with the exact total length (class 16 carries no value bits). The "
     "built-in codes are prefix-free, at most 16 bits, never all ones and ordered as a table header can "
     "describe; with a table loaded at run time, each class uses the length and code loaded for it.",
     ["inputs", "configurations"],
     "all classes, all value bits, all lanes, every supported bit depth, built-in and loaded tables",
     "No passing test reaches the encoder (its memory could not even be constructed); a table is a "
     "global object whose prefix property no sampled value shows.",
     ["migen_src/encode.py"],
     [("table", "Encode.__init__ / memories"), ("shift and or of code and value", "Encode.elaborate")],
     "constant propagation of the code table through the encoder's data path, then table rules",
     IR + "The code of each class is read off the abstract output word, then checked as a table.")

prop("C04", "Merging codewords of one cycle loses no bit",
     "When several samples are coded per cycle their codewords leave as one word whose length is the sum "
     "of their lengths and whose bits are the codewords one after the other in sample order, with zeros "
     "above. This holds whatever the lengths and bits of the codewords are.",
     ["inputs", "configurations"],
     "all codeword bits, all length combinations up to the longest codeword, 2, 3, 4 and 8 lanes",
     "The merge test samples random short words; the bounds at which a shift amount or a width is one "
     "short need the longest codewords in several lanes at once.",
     ["migen_src/merge.py"], [("tree of shift-and-or steps", "Merge.elaborate, SingleMerge")],
     "bit-provenance abstract interpretation of the merge tree, partitioned on the lengths",
     IR + "Bits are symbolic; lengths are partitioned exhaustively for 2 lanes and by pairs/edges for "
     "more lanes.")

prop("C05", "Data, valid and end flags move through the coding pipeline together",
     "A group accepted by the coding pipeline comes out exactly once, after a fixed number of cycles, its "
     "data together with its valid flag and its end-of-frame flag; nothing comes out that was not put in. "
     "Each stage receives what the stage before it produced for the same group and lane.",
     ["inputs", "schedules", "configurations"],
     "every input sequence, idle pattern and supported configuration of the pipeline",
     "Stage tests never run two stages together, and a flag that is one cycle early goes unnoticed with "
     "back-to-back groups.",
     ["migen_src/integration_1.py", "migen_src/predictor_p1_c4_pix1_2.py", "migen_src/predictor_p1_c4_px4.py",
      "migen_src/difference.py", "migen_src/normalize.py", "migen_src/encode.py", "migen_src/merge.py"],
     [("travelling valid/end registers", "each stage"), ("connections", "Integration1.elaborate")],
     "delay dataflow over each stage plus connection rules on the elaborated netlist",
     IR + "Connections are compared as bit expressions, so renaming or regrouping them is no violation.")

prop("C07", "Repacking variable-length words into fixed words preserves the bit stream",
     "The words leaving the packer, read one after the other, are the codeword bits in order with none "
     "lost, repeated or added, whatever the codeword lengths and however the receiver stalls. The frame's "
     "last bits are always delivered, padded only in the final word, and only that final word carries the "
     "end mark.",
     ["inputs", "schedules", "histories", "configurations"],
     "every sequence of codewords and lengths, every stall pattern, every buffer fill level at the frame's "
     "end",
     "These modules have no passing test; a lost bit needs one particular fill level and length.",
     ["migen_src/converter.py", "migen_src/vbits_to_cbits.py"],
     [("piecewise splitter", "Converter.elaborate"), ("bit buffer and fill counter",
      "vbits_to_cbits.py: Buffer / VBitsToCBits")],
     "typestate fixpoint with a ghost bit queue over the next-state functions (bit-provenance domain)",
     IR + "All reachable abstract states are enumerated; the shipped bit-packer size is run in the "
     "thorough tier, smaller sizes of the same parameterised code in the quick one.")

prop("C08", "Every 0xFF byte of coded data is followed by a zero byte",
     "The byte stuffer passes on every byte of the coded data in order, puts exactly one 0x00 after each "
     "0xFF byte and nowhere else, and its output stream is complete: stalls on either side lose or repeat "
     "no byte. The end mark is on the last word and on no other.",
     ["inputs", "schedules", "histories"],
     "all byte values, all runs of 0xFF bytes, every stall pattern, odd and even totals",
     "The stuffing modules have no stable test; a run of 0xFF bytes combined with a stall is improbable "
     "in random data.",
     ["migen_src/fix_0xff.py", "migen_src/fix_0xff2.py"],
     [("expansion to 2..4 bytes", "Fix0xFF.elaborate"), ("byte gearbox", "Fix0xFF2.elaborate")],
     "typestate fixpoint with a ghost byte queue over the next-state functions",
     IR + "Holds for all byte values: the only partition is byte==0xFF or not.")

prop("C06", "Back-pressure never loses or repeats a group",
     "A group of samples enters the pipeline exactly when it is offered valid while the core says it is "
     "ready. When a buffer asks the stages before it to stop, it always has room for everything that can "
     "still arrive, and it hands every entry on whole and in order; nothing is accepted while the buffer "
     "asks to stop, before the frame size is loaded, or after a frame's last group until the next reset.",
     ["inputs", "schedules", "configurations"],
     "every arrival and stall pattern, the shipped buffer depths and pipeline latencies for 1, 2 and 4 "
     "samples per cycle",
     "Overflow needs a full pipeline and a receiver stalling at the one worst moment; the buffer test "
     "could not even be built.",
     ["migen_src/lj92_pipeline_fifo.py", "migen_src/converter_fifo.py", "migen_src/integration_2.py",
      "migen_src/integration_3.py"],
     [("stop threshold", "LJ92PipelineFifo / ConverterFifo close_full"),
      ("accept gate", "Integration2.elaborate nready, end-of-frame flag")],
     "typestate fixpoint plus a capacity inequality from computed latencies",
     IR + "The latencies and the number of late writes are computed from the sources, not assumed.")

prop("C09", "Every frame is delimited by opening and closing marks",
     "The marker stage sends eight 0xFFFF words before the first word of a frame, then every word of the "
     "frame unchanged and in order, then eight 0xFFFF words after the last one, whatever the stalls. A frame "
     "cut short by the time-out is closed by eight 0xFFFE words instead, and the end flag is up exactly on the "
     "last mark word.",
     ["inputs", "schedules", "histories"],
     "every word stream, every receiver stall and idle pattern, a time-out at any cycle",
     "The one marker test fixes a frame length and a stall pattern; a frame end offered while the receiver "
     "stalls, or a time-out at a particular cycle, is not in it.",
     ["migen_src/markers.py"], [("mark counter and end condition", "Markers.elaborate")],
     "typestate fixpoint with a ghost frame protocol", IR)

prop("C10", "Row starts and the frame's end are marked on the right group",
     "Counting the groups accepted since reset, the new-row flag is raised for exactly the first group of "
     "each row and the end-of-frame flag for exactly the last group of the last row, as given by the "
     "configured width and height. This holds for every frame of at least two groups whose width is a "
     "multiple of the samples per cycle, and idle cycles change nothing.",
     ["inputs", "schedules", "configurations"],
     "all widths and heights up to 65535, every placement of idle cycles, 1, 2 and 4 samples per cycle",
     "The test samples a few random sizes; rows of one group, frames of two groups and sizes near 2^16 are "
     "not among them.",
     ["migen_src/signals.py"], [("row/column counters and state machine", "Signals.elaborate")],
     "affine-relation abstract interpretation of the counters",
     IR + "The loop invariants relating counters to the frame position are inferred, for all sizes at once.")

prop("C11", "Frames are independent: reset after the end word, and time-out",
     "The transfer of a frame's end word is followed by exactly one reset cycle, in which no word is delivered, "
     "and the next frame starts with all coding state at its initial value while frame size, time-out and code "
     "table settings are kept. The time-out is raised only after a frame has had at least the configured number of "
     "cycles since its first group, at most four cycles later, and stays until the reset. Without a register port frames "
     "have 4096 by 3072 samples, and the time-out leaves at least one cycle for each of their groups.",
     ["inputs", "schedules", "histories", "configurations"],
     "every history of earlier frames, every stall pattern at the end word, every time-out setting",
     "State that leaks from one frame into the next needs the right first frame; a time-out needs millions of "
     "cycles. No test runs two frames.",
     ["migen_src/auto_reset.py", "migen_src/force_end.py", "migen_src/beta_integration.py",
      "migen_src/micro_integration.py", "migen_src/clk_domains.py"],
     [("reset request", "AutoReset.elaborate"), ("cycle counter", "ForceEnd.elaborate"),
      ("clock domains", "clk_domains.load_clk and every m.d.sync / m.d.full assignment")],
     "affine-relation abstract interpretation; backward slicing against clock domains",
     IR + "Settings live in domain full, everything the outputs depend on in the domain the frame reset clears.")

prop("C12", "The AXI-lite port reads and writes exactly the addressed register",
     "A read returns the addressed size or time-out register, code-table half or debug counter; a write changes "
     "exactly the strobed bytes of the addressed register or table half and nothing else; other addresses are "
     "answered with a decode error (slave error for writes to debug counters) and change nothing. Every transfer "
     "gets exactly one response, held until the master takes it, whatever the order and timing of address, data "
     "and response handshakes, and the reset between frames disturbs neither transfer nor registers.",
     ["inputs", "schedules", "histories", "configurations"],
     "all addresses, data, byte strobes, table contents and handshake timings; reads and writes overlapping",
     "The port's test issues a few transfers with the master always ready; a lost response or a wrongly merged "
     "half needs particular handshake timing or particular earlier contents.",
     ["migen_src/core_axi_lite.py", "migen_src/debug_module.py"],
     [("transfer state machine", "CoreAxiLite.elaborate FSM"), ("table halves", "write_to_ssss/read_ssss helpers"),
      ("register bytes", "write_to_hw helpers")],
     "typestate fixpoint with a ghost AXI-lite master and ghost register contents", IR)

prop("C13", "Each DMA address becomes exactly one whole burst",
     "Each address handed to the AXI writer or reader is requested once, unchanged and held until taken, as a burst "
     "of 16 eight-byte beats; the writer sends, and the reader forwards, each word once and in order, starting only "
     "when its FIFO holds (has room for) 16 words, with last on the sixteenth written beat. The active and unconfirmed "
     "counts and the idle and error flags are exact and every response is taken. The address generators yield the "
     "start address and then addresses rising by the burst size, nothing new is requested while disabled, the "
     "full-AXI design stops after the frame's number of bursts, and the reset at a frame's end discards no word on its "
     "way to memory.",
     ["inputs", "schedules", "histories"],
     "all data and addresses, every timing of the AXI address, data and response handshakes, all enable sequences",
     "The DMA engines have no tests; a 17-beat burst or a lost count needs back-pressure in one particular cycle.",
     ["migen_src/axihp_writer.py", "migen_src/axihp_reader.py", "migen_src/address_generator.py",
      "migen_src/beta_integration_fullaxi.py"],
     [("address, data and response pipelines", "AxiHPWriter/AxiHPReader.elaborate"),
      ("address state machine", "AddressGenerator.elaborate"), ("burst counters", "BetaIntegrationFullAxi.elaborate")],
     "typestate fixpoint with a ghost memory and ghost FIFO; connection rules; reset-domain slices", IR +
     "At most 15 bursts are outstanding, the counters' own width; the burst length is the built-in 16.")

prop("C14", "Input words carry the samples in the documented bit fields",
     "The AXI-stream and FIFO wrappers give the core, as its first, second ... sample, the bit fields of the input "
     "word laid down for the wrapper, as many as the core takes per cycle. Valid, ready/busy and last handshakes "
     "are passed on in both directions unchanged, so that a word counts as transferred on the bus exactly when "
     "the core takes or delivers it.",
     ["inputs", "schedules", "configurations"],
     "all word values and handshake timings, all wrappers",
     "No test instantiates a wrapper: a swapped field only shows against real sensor data.",
     ["migen_src/beta_integration_axistream.py", "migen_src/micro_integration_axistream.py",
      "migen_src/integration_3_axi_stream.py", "migen_src/beta_integration_fifo_axistream.py",
      "migen_src/beta_integration_fifo_lvds.py"],
     [("field slices", "elaborate of each wrapper"), ("ready/busy polarity", "elaborate of each wrapper")],
     "connection rules on the elaborated netlist", IR)

prop("C15", "Width converters keep the data stream",
     "The 16-to-40, 16-to-64 and 64-to-32 bit converters deliver the bytes or samples they accept in order, each "
     "exactly once, first-arrived in the most significant place, and keep a word stable until it is taken. The "
     "burst FIFO hands on every entry whole, reports room for a 16-word burst only if there is, and a waiting "
     "burst exactly when 16 words wait.",
     ["inputs", "schedules", "histories"],
     "all data, every stall pattern on both sides",
     "These modules have no tests; a byte lost between two words needs a stall in one particular state.",
     ["migen_src/b16_b40.py", "migen_src/b16_b64.py", "migen_src/b64_b32.py", "migen_src/b64_b32_2.py",
      "migen_src/axihp_fifo.py"],
     [("state machines with set-aside registers", "elaborate of each"), ("level thresholds", "AxiHPFifo.elaborate")],
     "typestate fixpoint with a ghost queue of units", IR +
     "b64_b32_2 narrows to the upper 48 bits (two 24-bit sample pairs); the end flag of b16_b64 is not claimed.")

prop("C16", "Every block of the core is wired to its neighbours",
     "Along the path pipeline, pipeline buffer, splitter, piece buffer, bit packer, the two stuffing stages, marker "
     "stage and frame output, each block receives exactly its predecessor's data, length, valid and end signals and "
     "passes its busy or read strobe back to that predecessor. The size, time-out and end-of-frame signals reach "
     "the blocks that act on them, and this is so in every shipped configuration.",
     ["inputs", "schedules", "configurations"],
     "all values and timings of the connected signals, the 1, 2 and 4 samples-per-cycle integrations",
     "No test can even build the integrations; a dropped end or busy line shows only when that line matters.",
     ["migen_src/integration_2.py", "migen_src/integration_3.py", "migen_src/beta_integration.py",
      "migen_src/micro_integration.py"],
     [("connections", "elaborate of each integration")],
     "connection rules on the elaborated netlist", IR)

prop("C17", "The DMA control port and the AXI bridge answer each transfer once and correctly",
     "A read of the DMA port returns the addressed register or observed value; a write changes exactly the strobed "
     "bytes of the addressed register and nothing else; other addresses get a decode error (slave error for writes "
     "to observed values), and each transfer gets one response, held until it is taken, even if a frame ends "
     "meanwhile. The AXI3-to-lite bridge passes every channel on unchanged and gives each response the id of its own "
     "transfer.",
     ["inputs", "schedules", "histories"],
     "all addresses, data, strobes, ids and handshake timings; reads and writes overlapping",
     "Neither module has a test; a response withdrawn early or an id mixed up needs overlapping transfers.",
     ["migen_src/dma_axi_lite.py", "migen_src/axi_lite.py"],
     [("transfer state machine", "DMAAxiLite.elaborate FSM"), ("id registers", "AxiLite.elaborate")],
     "typestate fixpoint with a ghost AXI-lite master; connection rules on the elaborated netlist", IR)

prop("C18", "Every module generates complete hardware",
     "Each module that can be turned into Verilog on its own is generated without error from its own built-in "
     "configuration. In the result every signal that is used is driven or is a port, no signal is driven from two "
     "modules or clocks, everything computed for the outside is in the port list, and no signal depends on itself "
     "within a clock cycle; every field of an AXI port has the width the bus gives it.",
     ["configurations"],
     "every module with a generator section, every signal of the generated hardware",
     "Tests drive object attributes directly: a signal missing from the port list is stuck only in the Verilog, and "
     "half of the modules are never built.",
     ["migen_src/integration_1.py", "migen_src/integration_2.py", "migen_src/integration_3.py",
      "migen_src/beta_integration.py", "migen_src/micro_integration.py", "migen_src/markers.py",
      "migen_src/predictor_p1_c4_px4.py"],
     [("port lists", "self.ios of every module"), ("generator section", "if __name__ == '__main__' of every module")],
     "rules over the elaborated netlist of each generator section; depth-first search for combinational cycles", IR +
     "Signals inside a module that nothing reads are not reported; the checked-in Verilog is not compared.")

prop("C19", "A configuration that is accepted is a safe one",
     "Whatever buffer depth, piece width or packer buffer size the constructors accept, the hardware built with it "
     "loses, repeats or invents nothing and does not get stuck; sizes for which this cannot be had are refused when "
     "the hardware is generated. Bit depths, samples per cycle, predictor functions and component counts that are "
     "not implemented are refused as well.",
     ["configurations", "inputs", "schedules"],
     "buffer depths from 0 up, all packer buffer sizes around the limit, piece widths around the widest word, bit "
     "depths 0..18, 0..8 samples per cycle; each accepted one for all inputs and stalls",
     "Tests use one or two configurations per module; a size one below the limit overflows only under the worst "
     "stall.",
     ["migen_src/lj92_pipeline_fifo.py", "migen_src/converter_fifo.py", "migen_src/vbits_to_cbits.py",
      "migen_src/converter.py", "migen_src/integration_1.py"],
     [("size checks", "assert statements of the constructors")],
     "evaluation of the constructors' checks; capacity inequality and typestate fixpoint for every accepted one", IR +
     "Packer sizes are enumerated for narrow pieces (up to 12 bits) of the same parameterised code.")

prop("C20", "The delay and bit-reversal helpers do exactly their delay and reversal",
     "The delayer's output rises exactly the configured number of cycles after its input first rises and then stays "
     "up. The reverser's output is its input with the bits in opposite order, in the same cycle or, if built "
     "synchronous, one cycle later.",
     ["inputs", "histories", "configurations"],
     "all input histories and delays from 2 to 100; all input words",
     "Neither helper has a test; a delay that is one cycle off only shows up as wrong sensor timing.",
     ["migen_src/delayer.py", "migen_src/reverser.py"],
     [("cycle counter", "Delayer.elaborate"), ("bit order", "Reverser.elaborate")],
     "typestate fixpoint of the delayer; bit provenance through the reverser", IR)

LL = ("Decided on the LLVM IR clang makes of the current sources (unoptimised, scalars in SSA form), interpreted over "
      "abstract words; nothing is executed and no solver is used. Trusts clang's translation and the models of the "
      "library calls. ")

prop("C21", "The board software drives the core and the DMA engine by their register maps",
     "CoreAXILite reads and writes exactly the register it names: frame width in the upper and height in the lower half "
     "of the size register, each set without changing the other, the allowed cycles, each debug counter under its name, "
     "and every class of the code table with its code and code length; XilinxDMA uses the AXI DMA registers (PG021) with "
     "the reset, halt, start, address and length values, names exactly the status bits that are set, and its sync calls "
     "return only after a status read with both idle and interrupt-on-complete set. The test program packs every sample of "
     "the 12-bit image once, in order, into the bit fields of the core's input words, prepares core, buffers and both DMA "
     "directions before the transfer starts and looks at the result only after both are done.",
     ["inputs", "histories", "configurations"],
     "all register contents, arguments, images, code lengths and bit depths; every number of status polls",
     "The software has no tests and needs the board; most of its mistakes (a lost class, a swapped half, a sync that "
     "returns early) show only with particular register contents.",
     ["software/src/core_axi_lite.cpp", "software/src/xilinx_dma.cpp", "software/src/mmap_handler.cpp",
      "software/src/xilinx_test.cpp"],
     [("register offsets and fields", "CoreAXILite::get_*/set_*"), ("DMA registers, status, sync", "XilinxDMA"),
      ("packing", "re_order_set_raw12_64bits / _32bits"), ("set-up order", "main")],
     "abstract interpretation of LLVM IR: bit provenance of every register access, induction over the packing loops, "
     "fixpoint of the polling loops, call-order rules for main", LL +
     "The table is analysed per code length 1..16; long loops by an affine induction on the iteration number.")

prop("C22", "The debug counters count exactly the cycles of their conditions",
     "With the debug option on, each of the eight counters that can be read over AXI-lite advances by one for each cycle "
     "in which its condition held (no input, input, no output, output, ready, not ready, output stalled, output not "
     "stalled) between the first valid input and the cycles in which the frame's end word is offered, and in no other "
     "cycle. Counters keep their values over the reset at the end of a frame.",
     ["inputs", "schedules", "histories"],
     "every sequence of valid inputs, readiness, outputs, stalls, end words and frame resets; all counter values",
     "The option is off in every test; a counter that counts the opposite condition, or also counts idle time, gives "
     "plausible numbers.",
     ["migen_src/debug_module.py", "migen_src/beta_integration.py", "migen_src/micro_integration.py",
      "migen_src/register_file.py"],
     [("counters", "DebugModule.elaborate"), ("conditions", "BetaIntegration/MicroIntegration.elaborate, regs_en")],
     "explicit fixpoint over the control registers in the counters' backward slice against a ghost record of conditions",
     IR + "A fixed delay of up to four cycles between condition and count is accepted; whether counting restarts with each "
     "frame or goes on after the first input is left open.")

L = "liblj92/lj92.c"

prop("C23", "The decoder reads every difference exactly as the scan codes it",
     "For every scan, the n-th difference the lossless-JPEG decoder reads is the one its Huffman code and value bits "
     "stand for: the code-table index is the scan's next bits, a class s of 1..15 takes exactly s further bits (a leading "
     "zero makes the value negative), class 0 is the difference 0, and class 16 is 32768 without further bits. The byte "
     "after each 0xFF is skipped, whatever bits are pending, no data beyond the end are read (zeros follow), and the next "
     "difference continues at the bit after this one.",
     ["inputs", "histories"],
     "every scan and length of the data; code tables of 1..16 bits; every number of pending bits, code length and class, "
     "every place of 0xFF bytes and of the end of the data",
     "Whether a byte pair splits a stuffed 0xFF, meets the end of the data, or leaves more than 16 bits pending depends "
     "on the whole history of code lengths; images of a test meet a few of the combinations.",
     [L], [("bit reader", "nextdiff")],
     "bit-provenance abstract interpretation over a finite partition of pending bits, code lengths and classes", LL +
     "The class and code length of a table entry are taken as any valid pair; that the table itself is right is C27.")

prop("C24", "The decoder puts every sample in its place with the right prediction",
     "For every image size, number of components, predictor 1..7, tile layout (write length, skip length) and with or "
     "without a linearization table, lj92_decode stores for each sample the prediction of its row, column and component "
     "(T.81 H.1.2: neighbours of the same component; half range first, left in the first row, above in the first column) "
     "plus the difference, modulo 65536, at its place in the tile, reads one difference per sample in order, and looks the "
     "table up only inside. It reports success only after the last sample and only if the data sufficed, and rejects no "
     "valid scan. The frame's size, depth and components come from their places in the header, and lj92_open's row "
     "cache holds two rows of them.",
     ["inputs", "configurations"],
     "all widths, heights, components, tile layouts, tables and difference sequences; all seven predictors",
     "The seven predictors and three loops repeat the same index arithmetic; a wrong neighbour, tile row or row swap "
     "shows only for particular sizes, components and predictors.",
     [L], [("scan loops", "parseScan, parsePred6, lj92_decode"), ("frame", "parseSof3"), ("row cache", "lj92_open")],
     "affine-relation (Karr) invariants per loop header and class of positions; samples as terms compared on every path",
     LL + "Sizes are taken not to overflow; write lengths divide into whole values as the caller promises.")

prop("C25", "The encoder classifies every sample of the tile once, from the right prediction",
     "For every image size, tile layout and with or without a delinearization table, both passes of the encoder take each "
     "sample of the tile once and in order, predict it with predictor 6 from the samples coded before (half range first, "
     "left in the first row, above in the first column), and use the class of the difference modulo 65536: the first pass "
     "counts it, the second looks its code up. Samples beyond the table are refused before anything is written, and no "
     "other sample is refused.",
     ["inputs", "configurations"],
     "all widths, heights, tile layouts, depths, tables and samples",
     "The two passes are separate copies of the same loop: when they disagree for some sample, its class has no code and "
     "the stream is corrupt, for that image only.",
     [L], [("histogram pass", "frequencyScan"), ("coding pass", "writeBody")],
     "affine-relation (Karr) invariants per loop header and class of positions; predictions and classes as terms", LL +
     "Sizes are taken not to overflow.")

prop("C26", "The encoder writes a header that describes the image, then exactly the codes",
     "lj92_encode writes the markers, the code table's counts and values, bit depth, height, width and predictor in the "
     "order and width T.81 gives them, then for each sample its code and its difference's value bits, most significant "
     "first and without a gap, a zero byte after every 0xFF, and pads the last byte. Bytes are written one behind the "
     "other and never beyond the allocated buffer, the encoder gives up only when the buffer is almost full, and the "
     "caller gets exactly the bytes written, or an error and none.",
     ["inputs", "histories"],
     "every sequence of classes, code lengths 1..16, values, pending bits and remaining room",
     "A byte boundary can fall at every bit of every code and value, next to a 0xFF or to the end of the buffer; only a "
     "few of the combinations occur in an image.",
     [L], [("codes and values", "writeBody"), ("header", "writeHeader"), ("phases", "lj92_encode, writePost")],
     "bit-provenance abstract interpretation from class lookup to class lookup; path-wise comparison of the header", LL +
     "Header fields are taken to fit their 8 or 16 bits; the table has at most 17 codes of 1..16 bits.")

prop("C27", "Code tables are the canonical ones of their counts and values, both ways",
     "From every table's counts of codes per length and list of values (T.81 Annex C), the decoder builds a look-up table "
     "in which each prefix of as many bits as the longest code leads to the length and value of the code it starts with; "
     "the table has room for all of them and is refused only if the data are short, memory runs out or a value is no "
     "difference class. The encoder gives the k-th value of its list the k-th canonical code with its length, and leads "
     "every class in use to its own code.",
     ["inputs"], "every vector of counts per code length and every list of values",
     "A table has up to 65536 entries that depend on sixteen counts; the tables of a few images exercise one shape each.",
     [L], [("look-up table", "parseHuff"), ("codes", "createEncodeTable")],
     "abstract interpretation with a ghost walk of the canonical code, joined at loop headers", LL +
     "How the encoder chooses code lengths is not part of it (floating point; see not_applicable).")

prop("C28", "No file makes liblj92's decoder leave its memory",
     "Whatever the bytes of a file, lj92_open and the scan header's reading in lj92_decode read only bytes of the file, never "
     "change them, write the look-up table only inside its allocation, use no null or freed pointer and free nothing twice. A "
     "file that lj92_open refuses leaves no handle and no memory allocated; one it accepts has a width, height and number of "
     "components of at least 1, 1 to 16 bits, a scan inside the data and a table with an entry for every value of as many "
     "bits as the decoder looks up, and lj92_close frees exactly what it holds.",
     ["inputs"], "every sequence of bytes of every length below 2^31 - 2^17",
     "Broken files are as many as there are byte strings; tests and fuzzing reach the few shapes that somebody thought of.",
     [L], [("parsing", "lj92_open, parseImage, find, parseHuff, parseSof3, parseBlock"), ("scan header", "parseScan"),
           ("release", "lj92_close, free_memory")],
     "linear invariants at loop headers, entailed obligations at every memory access and return", LL +
     "Accesses of rows, tiles and look-up entries during decoding belong to C24 and C23.")

prop("C29", "lj92_open takes every marker segment for what its marker says",
     "From the start marker on, the next segment is the one behind the first 0xFF at or behind the end of the one before; a "
     "frame header sets height, width, depth and components from its bytes, a code table segment sets the look-up table, every "
     "other segment before the scan changes nothing, and reading goes on exactly the segment's declared length behind its begin. "
     "The scan begins right behind its marker. A file is refused only if it does not begin with the start marker, ends before its "
     "scan or inside a segment, has a frame of no samples or of other than 1 to 16 bits, has no frame or table before the "
     "scan, has an invalid table, or memory runs out.",
     ["inputs", "histories"], "every sequence of marker segments of every length and content",
     "Segments come in any number, order and length, and their contents may look like markers; a test has a few files.",
     [L], [("segments", "parseImage, find, parseBlock"), ("frame", "parseSof3"), ("table", "parseHuff")],
     "path-wise dataflow between loop headers with a ghost frontier of the bytes known to differ from 0xFF", LL +
     "What makes a code table valid is C27.")

na("N01", "The whole pipeline's file equals a reference encoder's file",
   "For every image and configuration the bytes the hardware writes between start and end marker are exactly those a "
   "lossless JPEG encoder with the same predictor and code table writes, so that any standard decoder returns the image.",
   ["inputs", "schedules", "configurations"], "all images, sizes, depths, tables and bus timings, through all stages at once",
   "An end-to-end test compares a few images.",
   ["migen_src/core_axi_lite.py", "migen_src/integration_3.py", "migen_src/converter.py"],
   [("composition", "core_axi_lite.py, integration_3.py")],
   "Each stage's own statement is decided (C01-C12) and their wiring and hand-over (C05, C16, C17); a single fixpoint over "
   "the product of all stages' states (the packer alone has 10^4) is out of reach of a static argument, and comparing files "
   "would be a test.")

na("N02", "Every histogram yields code lengths of at most 16 bits that form a prefix code",
   "For every histogram of difference classes the encoder gives each class that occurs a code length of 1 to 16 bits, no "
   "fewer for a rarer class, such that the lengths admit a prefix code that leaves the code of all ones unused.",
   ["inputs"], "every histogram of difference classes",
   "The shape of the tree depends on the order of up to 18 frequencies and their sums; a few images give a few shapes.",
   [L], [("code lengths", "createEncodeTable")],
   "Which pair of subtrees is merged depends on comparisons of sums of floating-point frequencies, and the lengths on "
   "linked lists of merged symbols; a static argument needs a forest-shape invariant for these arrays that the analyses here "
   "cannot express, and enumerating histograms or tree shapes would be running the code. That the codes are canonical for the "
   "counts chosen is decided (C27).")

na("N03", "The core sustains its pixel rate at the target clock",
   "The core accepts one group of samples per cycle at the clock the design is meant for and compresses to the size the "
   "image's entropy allows.",
   ["configurations"], "all FPGA targets and images",
   "Timing comes out of synthesis and placement, size out of the data.",
   ["migen_src/core_axi_lite.py"], [("top level", "core_axi_lite.py")],
   "Clock frequency and area are results of synthesis and placement and the compression ratio is a property of the data; "
   "neither is in the source. (That stages do not stall without need is decided by C05 and C08.)")
