# Source of properties.jsonl and MANIFEST.json:  python3 tools/gen.py
def P(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}

PROPS = [
P("P01", "Errors met while decoding always reach the caller",
  "Whenever any step of decoding a JPEG XL stream reports a failure (a read that fails or comes up short, a value rejected by a validation, an unsupported feature), the decode call returns a non-nil error. No such failure is dropped, overwritten by a later success, or only logged.",
  ["inputs", "fault_sequences"], "every input stream, every position at which a read or a validation can fail, every call path from the decoding API",
  "Tests inject a handful of failures in single constructors; the obligation is on each of the several hundred fallible calls and every path after each of them.",
  ["core/", "frame/", "entropy/", "bundle/", "colour/", "color/", "jxlio/", "image/", "util/"],
  [("error returns threaded through every constructor and decode step", "all decode packages"), ("box boundary end of file is the only tolerated read failure", "core/read_jxl_boxes.go")],
  observe=["error result of JXLDecoder.Decode / DecodeConfig and jxl.Decode"]),
P("P02", "Errors in concurrent decoding workers reach the caller",
  "When part of a frame is decoded by concurrent workers and any one of them fails, the decode call returns a non-nil error, whatever the other workers do and in whatever order they finish.",
  ["schedules", "inputs"], "every interleaving of the workers and every subset of them failing",
  "Tests run valid images or fake frames on whatever schedule the runtime picks; a failure lost in a hand-over only shows on corrupt groups on particular schedules.",
  ["frame/Frame.go", "frame/LFCoefficients.go", "core/jxl_codestream_decoder.go", "image/"],
  [("error channels drained after the workers are joined", "frame/Frame.go"), ("first-error variables owned by the joining function", "frame/Frame.go")]),
P("P03", "Image writers report every failure of their output",
  "Whenever writing or compressing any part of a PNG or PFM file fails, including flushing and closing the compressor, the export call returns a non-nil error.",
  ["fault_sequences"], "every writer, failing at every byte position, for every pixel format",
  "Export tests write to in-memory buffers that never fail.",
  ["core/png_writer.go", "core/pfm_writer.go", "core/jxl_image.go"],
  [("error results of Write/Close/binary.Write propagated", "core/png_writer.go, core/pfm_writer.go")]),
P("P04", "Decoding does not depend on how the source chunks its reads",
  "Decoding the same bytes gives the same result whether the source reader returns them all at once or in arbitrarily small pieces. A read of the input that comes back short is continued until it is complete or reported as an error.",
  ["inputs", "fault_sequences"], "every io.Reader that may legally return fewer bytes than asked for",
  "All tests read from bytes.Reader or whole files, which never return short counts mid-stream.",
  ["jxlio/bitreader.go", "jxlio/IOHelper.go", "core/read_jxl_boxes.go"],
  [("complete reads (io.ReadFull) at every point that consumes input", "jxlio/bitreader.go")]),
P("P05", "The library never terminates the host program on purpose",
  "No input and no option makes the decoder or the exporters panic explicitly, exit the process, call a fatal logger, or apply an unchecked interface conversion that can fail. Unsupported features are reported as errors.",
  ["inputs", "configurations"], "every input stream and option set",
  "Tests avoid unsupported features; a panic guarded by a rare header combination is never executed.",
  ["core/", "frame/", "entropy/", "bundle/", "jxlio/", "image/", "util/", "testcommon/bitreaderRecorder.go"],
  [("unsupported features return errors", "core/jxl_codestream_decoder.go, core/jxl_image.go, frame/FrameHeader.go, frame/PassGroup.go")]),
P("P06", "A call never returns nothing and no error",
  "Any decoding or export operation that returns a value together with an error returns either an object or a non-nil error, never a nil object with a nil error, except when the caller asked to only parse.",
  ["inputs"], "every input stream and every return path",
  "A nil image with a nil error needs a stream that falls through every accepting path, such as an empty or header-only codestream.",
  ["core/", "frame/", "bundle/", "colour/", "entropy/"],
  [("every fall-through ends in an error", "core/jxl_codestream_decoder.go, core/jxl_decoder.go")]),
P("P07", "Decoding is deterministic",
  "Decoding the same bytes with the same options always gives the same result. What is computed never depends on the clock, random numbers, the environment, the machine, memory addresses, map iteration order, or the order in which concurrent workers happen to run or finish (which of several errors is reported aside).",
  ["inputs", "schedules", "histories"], "every input stream, every schedule, every repetition",
  "A dependence on map order, scheduling or the machine shows only on some runs or some hosts; a test that passes once says nothing about the next run.",
  ["core/", "frame/", "entropy/", "bundle/", "image/", "util/", "jxlio/"],
  [("results of workers are placed by index, never in order of arrival", "frame/Frame.go"), ("maps are looked up, their order is not used", "all packages")]),
P("P08", "The library keeps its hands off the host process",
  "Decoding and exporting touch only the reader and writer they are given: no file, network connection, environment variable, subprocess, signal or standard stream is used, no process-wide setting is changed, and the reader and writer are not closed. Diagnostics go through the logging library only.",
  ["inputs", "configurations"], "every call of the API on every input and option set",
  "A stray write to standard output or a changed process setting is invisible to tests that look at the decoded pixels.",
  ["core/", "frame/", "entropy/", "bundle/", "colour/", "image/", "util/", "jxlio/", "options/"],
  [("all input through the bit reader, all output through the given writer", "jxlio/bitreader.go, core/png_writer.go, core/pfm_writer.go")]),
P("P09", "Decoding leaves no trace in package-level state",
  "After package initialisation no decode, query or export modifies a package-level variable or any table or default object built during initialisation, so one decode can never influence another through shared state. The registries of reusable buffer pools are the only exception.",
  ["histories", "schedules"], "every sequence and every concurrent mix of API calls",
  "Tests decode one image per case; a default table overwritten in place only shows in the next image, or in another goroutine.",
  ["bundle/", "colour/", "entropy/", "frame/", "util/", "core/", "options/"],
  [("default tables (upsampling weights, dequantisation, transform types, colour constants)", "bundle/image_header.go, frame/HFGlobal.go, frame/TransformType.go, colour/")]),
P("P10", "Exporting an image does not change it",
  "Converting a decoded image to a Go image, extracting one channel, writing it as PNG or PFM, and querying it never modify the image's own buffers, samples or metadata, so repeating or reordering exports gives the same output.",
  ["histories"], "every sequence of exports of every decoded image",
  "Tests export each decoded image once.",
  ["core/jxl_image.go", "core/png_writer.go", "core/pfm_writer.go", "image/imagebuffer.go"],
  [("exports convert a copy of the image", "core/jxl_image.go, core/png_writer.go")]),
P("P11", "Workers always finish before the call returns and never hang it",
  "Every goroutine a decode starts has finished when the call returns, on every path including errors. The library's own synchronisation cannot hang or crash a call, whatever the schedule, the input or MaxGoroutines: workers are counted before they start and sign off exactly once, channels have room or a reader for everything sent on them and are closed once after their last sender, and concurrency slots and locks are released on every path.",
  ["schedules", "inputs", "configurations"], "every interleaving, every subset of failing groups, every number of workers",
  "A leaked slot, a short channel or a missed sign-off only blocks when enough workers fail or enough groups exist; tests decode small valid images.",
  ["frame/Frame.go", "util/buffer_pool.go", "core/", "image/"],
  [("wait groups, error channels, work queue and semaphores of the worker pools", "frame/Frame.go"), ("pool registry locks", "util/buffer_pool.go")]),
P("P12", "Concurrent workers never race on shared memory",
  "Concurrent decoding workers share no variable, object field or scratch buffer that any of them writes, unless all of them hold the same lock or use atomics; otherwise the only shared memory they write is elements of arrays selected by the work item they own. The function that starts them neither writes what they use nor reads what they write until they have finished.",
  ["schedules", "inputs", "configurations"], "every interleaving of every set of workers, at every log level",
  "A race shows only under particular schedules and is invisible to tests that run without the race detector or with few groups.",
  ["frame/", "entropy/", "jxlio/", "util/", "core/", "image/"],
  [("each worker decodes into its own group, row range or channel", "frame/Frame.go"), ("per-worker entropy stream and bit reader state", "frame/HFPass.go, frame/HFCoefficients.go, entropy/entropy_stream.go"), ("pool and registry locks", "util/pool.go, util/buffer_pool.go")]),
P("P13", "Recycled buffers are never still in use",
  "A working buffer given back for reuse is not reachable from anything the decoder still uses (frame, image, reference frame or another worker), is given back at most once, is not used afterwards, and has every element zeroed before it is handed out again. What a decode computes therefore never depends on earlier decodes or on what other workers recycled.",
  ["histories", "schedules"], "every sequence of decodes in one process and every interleaving of their workers",
  "A recycled buffer that is still in use, or not cleared, changes pixels only when a later acquisition of the same size gets it; tests decode one image per process state.",
  ["util/pool.go", "frame/", "image/"],
  [("pools of matrices keyed by dimension", "util/pool.go"), ("scratch buffers released at the end of a pass or a worker", "frame/Frame.go, frame/PassGroup.go, frame/HFCoefficients.go")]),
P("P14", "Entropy-coded sections are accepted only in a valid final state",
  "Every section of the codestream that is entropy coded (table of contents permutation, ICC profile, cluster maps, modular trees, modular channel data, coefficient orders and coefficients) is accepted only after the entropy decoder reached its defined final state. Otherwise decoding returns an error.",
  ["inputs", "fault_sequences"], "every corrupted or truncated stream, every section, every path on which the section's reader succeeds",
  "The final state is a checksum: valid test images always end in it, and a corrupt stream that decodes to plausible symbols is only told apart by this check.",
  ["entropy/EntropyStream.go", "frame/HFPass.go", "frame/HFCoefficients.go", "frame/MATree.go", "frame/ModularStream.go", "frame/Frame.go", "bundle/image_header.go"],
  [("ValidateFinalState after the last symbol of each section", "frame/, entropy/, bundle/"), ("final state 0x130000", "entropy/EntropyStream.go")]),
P("P15", "Invalid image data never crashes the process",
  "A run-time panic (index out of range, nil dereference, division by zero and the like) met while decoding, querying a header or exporting never reaches the caller and never kills the process from a worker: every public operation, and every goroutine it starts, recovers it and reports an error. Such a panic leaves no lock held, no concurrency slot taken and no worker running behind the returned call.",
  ["inputs", "schedules", "fault_sequences"], "every input stream, every point at which a run-time panic can arise, in the caller's goroutine or in any worker",
  "Malformed streams that index past a table are endless; a test shows that one of them is handled, not that no goroutine is left unprotected.",
  ["reader.go", "core/jxl_decoder.go", "core/jxl_image.go", "core/png_writer.go", "core/pfm_writer.go", "frame/Frame.go", "util/buffer_pool.go", "util/misc.go"],
  [("deferred recover in every public operation", "reader.go, core/"), ("deferred recover in every worker, reported through its error channel", "frame/Frame.go"), ("locks and slots released by deferred calls or with nothing that can panic in between", "util/buffer_pool.go, frame/Frame.go")]),
P("P16", "Every decode and every export comes to an end",
  "No input makes a decode or an export loop or recurse for ever. Every way round every loop consumes input, takes an entry from a queue or a collection, or moves a counter towards the bound the loop tests, and never away from it; every recursion goes down a finite structure, counts down, or consumes input.",
  ["inputs", "configurations"], "every input stream, every loop and every recursion reachable from the API",
  "A loop that stands still for one particular value read from the stream (a length of zero, a step of zero) hangs only on that stream; a test cannot tell a hang it never provokes.",
  ["core/", "frame/", "entropy/", "bundle/", "jxlio/", "image/", "util/", "colour/"],
  [("box, frame and extension loops consume input each time round", "core/read_jxl_boxes.go, core/jxl_codestream_decoder.go, bundle/Extensions.go"), ("LZ77 copies have a positive length", "entropy/EntropyStream.go"), ("recursion over modular trees and transform blocks", "frame/MATree.go, util/")]),
P("P17", "Saved frames keep the samples they had when they were saved",
  "A frame kept for later use, as a reference frame or as a low-frequency frame, keeps exactly the samples and the representation it had when it was saved, until another frame takes its slot. Neither the remaining steps applied to the same frame, nor drawing or decoding later frames, nor blending from it or reading it ever changes its buffers.",
  ["inputs", "histories"], "every sequence of frames, every slot, every later operation",
  "A kept frame that shares memory with the canvas or with the frame being finished goes wrong only for particular combinations of save flags and blend modes over several frames; test images have one or two frames.",
  ["core/jxl_codestream_decoder.go", "frame/Frame.go", "frame/lfcoefficients.go", "image/imagebuffer.go"],
  [("reference slots are filled with copies", "core/jxl_codestream_decoder.go"), ("conversions of a kept frame work on a copy of its headers", "core/jxl_codestream_decoder.go, frame/Frame.go, frame/lfcoefficients.go")],
  state=[("reference[0..3]", "frames later frames may blend from", "core/jxl_codestream_decoder.go"), ("lfBuffer[0..4]", "decoded low-frequency frames by level", "core/jxl_codestream_decoder.go")]),
P("P18", "The image header is read exactly as the format lays it out",
  "Parsing the image header (size, preview, bit depth, extra channels, colour encoding, tone mapping, XYB parameters, upsampling weights, extensions, ICC profile) takes from the bit stream exactly the elements ISO/IEC 18181-1 lays down, with the coding, the condition and the number of repetitions it gives each of them. Headers the format forbids are rejected, allowed ones the decoder supports are accepted, and the parsed fields hold the values the format assigns to them.",
  ["inputs"], "every header: every combination of flags, choices of coding, counts and values",
  "Tests feed a handful of headers from sample files and mocked readers; a wrong constant, condition or order in a rare branch shifts every later bit of such a file only.",
  ["bundle/", "colour/"],
  [("image header parser", "bundle/image_header.go"), ("extra channels and bit depth", "bundle/extra_channel_info.go, bundle/BitDepthHeader.go"), ("extensions", "bundle/Extensions.go"), ("colour encoding, tone mapping, XYB parameters", "colour/colour_encoding_bundle.go, colour/ToneMapping.go, colour/OpsinInverseMatrix.go")],
  observe=["fields of ImageHeader after ParseImageHeader", "position of the bit reader after it"]),
P("P19", "The frame header is read exactly as the format lays it out",
  "Parsing a frame header (frame type, flags, chroma subsampling, upsampling, passes, crop, blending, reference slots, name, restoration filter) takes from the bit stream exactly the elements ISO/IEC 18181-1 lays down, with the coding, the condition and the number of repetitions it gives each of them. The parsed fields, including the defaults of absent elements and the frame size derived from crop, upsampling and LF level, hold the values the format assigns to them.",
  ["inputs"], "every frame header: every frame type, encoding, flag, count and value, for every image header",
  "The header of a frame has several dozen elements that depend on each other; sample files exercise only a few of the combinations and a misread one desynchronises everything that follows.",
  ["frame/FrameHeader.go", "frame/BlendingInfo.go", "frame/PassesInfo.go", "frame/RestorationFilter.go"],
  [("frame header parser", "frame/FrameHeader.go"), ("blending information", "frame/BlendingInfo.go"), ("passes", "frame/PassesInfo.go"), ("restoration filter", "frame/RestorationFilter.go")],
  observe=["fields of FrameHeader after NewFrameHeaderWithReader", "position of the bit reader after it"]),
P("P20", "The sections of a frame are read exactly as the format lays them out",
  "Reading the sections of a frame takes from the bit stream exactly the elements ISO/IEC 18181-1 lays down, with the coding, condition, order and number of repetitions it gives each: table of contents, chroma correlation, block contexts, quantisation tables, coefficient orders, modular headers and transforms, meta-adaptive trees, LF and pass groups, entropy coder set-up, cluster maps and symbol distributions. The values stored from them are the ones the format assigns, and malformed settings the format forbids are rejected.",
  ["inputs"], "every section of every frame: every combination of flags, choices of coding, counts and values, for every frame header",
  "Which elements a section holds depends on dozens of earlier ones; sample files reach few of the combinations, and one misread element desynchronises everything after it.",
  ["frame/", "entropy/"],
  [("section parsers", "frame/LFGlobal.go, frame/LFGroup.go, frame/HFGlobal.go, frame/HFPass.go, frame/HFBlockContext.go, frame/PassGroup.go"), ("modular streams, transforms and trees", "frame/ModularStream.go, frame/transforminfo.go, frame/MATree.go"), ("entropy coder set-up", "entropy/EntropyStream.go, entropy/ANSSymbolDistribution.go, entropy/PrefixSymbolDistribution.go, entropy/HybridIntegerConfig.go"), ("table of contents", "frame/Frame.go")],
  observe=["position of the bit reader after each section parser", "fields of the parsed sections"]),
P("P21", "The primitive codings of the format are decoded as it defines them",
  "The variable-length codings every parser is built from (U32, U64, F16, Enum, U8, ICC varint, the sign mapping, hybrid integers and symbols with their LZ77 copies) take the number of bits the format gives them and return the value it gives those bits. A half float that is not finite and an enum above 63 are rejected.",
  ["inputs"], "every bit pattern and every parameter of each coding",
  "The parsers are tested with mocked readers, so a wrong offset or width in one branch of a coding only shows for values that take this branch, in whatever part of the file uses it.",
  ["jxlio/bitreader.go", "jxlio/", "entropy/EntropyStream.go", "frame/HFCoefficients.go"],
  [("primitive codings", "jxlio/bitreader.go"), ("hybrid integers and symbols", "entropy/EntropyStream.go"), ("context of the number of non-zero coefficients", "frame/HFCoefficients.go")],
  observe=["value returned by each coding", "position of the bit reader after it"]),
P("P22", "The constant tables and codes of the format have the format's values",
  "Every table of constants the decoder takes from ISO/IEC 18181-1 holds the standard's values, each in its place: upsampling kernels, default quantisation parameters of the 17 tables, AFV basis and frequencies, LLF scale factors, properties of the 27 transform types, coefficient contexts, default block contexts, delta palette, LZ77 special distances, prefix-code tables, ICC tag list, opsin matrix and biases, primaries and white points. The numeric codes of frame types, flags, blend modes, transforms, quantisation modes, extra channel types and colour enumerations are the standard's.",
  ["inputs"], "every entry of every table, whatever image makes the decoder look it up",
  "A table has up to 256 entries and an image uses a handful of them; a wrong digit in a kernel or in the parameters of a rare transform changes some samples of some images only.",
  ["bundle/image_header.go", "frame/HFGlobal.go", "frame/transformtype.go", "frame/PassGroup.go", "frame/ModularStream.go", "frame/HFCoefficients.go", "entropy/EntropyStream.go", "entropy/PrefixSymbolDistribution.go", "colour/"],
  [("default quantisation parameters", "frame/HFGlobal.go"), ("transform types", "frame/transformtype.go"), ("upsampling kernels", "bundle/image_header.go"), ("coefficient contexts", "frame/HFCoefficients.go"), ("special distances", "entropy/EntropyStream.go"), ("colour constants", "colour/colour_flags.go, colour/OpsinInverseMatrix.go")],
  observe=["entries of the tables", "values of the named codes"]),
P("P23", "Modular samples are computed by the formulas of the format",
  "Decoding modular image data computes what ISO/IEC 18181-1 lays down at every place of a channel, edges and corners included: the 14 predictors, the properties a meta-adaptive tree tests and the leaf it reaches, the self-correcting predictor's sub-predictions and largest error, and the sample from symbol, multiplier, offset and prediction. Undoing a transform gives the samples of the format: the 42 reversible colour transforms, horizontal and vertical squeeze with its tendency, and palettes with explicit, implicit and delta entries.",
  ["inputs"], "every sample of every modular channel: every neighbourhood, tree, predictor, transform and palette index",
  "The formulas differ per place, predictor and transform; sample images use a few of them, and one wrong neighbour or rounding drifts through all samples after it.",
  ["frame/ModularChannel.go", "frame/ModularStream.go", "frame/MATree.go"],
  [("predictors, properties and sample reconstruction", "frame/ModularChannel.go"), ("inverse transforms", "frame/ModularStream.go"), ("tree reduction and walk", "frame/MATree.go")],
  observe=["samples of a ModularChannel after decode", "channels of a ModularStream after its transforms are undone"]),
P("P24", "The bit reader hands out the bits of the stream in order",
  "Whatever operations came before on a bit reader, the next one (ReadBits, ReadBool, ReadByte, ReadBytesUint64, ShowBits, SkipBits, Skip, ZeroPadToByte, AtEnd, Reset) starts at the first bit not yet taken, takes exactly the bits it is asked for from as few bytes of the stream as hold them, and returns them least significant bit first. Showing bits takes none, and the count of bits read is the number taken.",
  ["inputs", "histories"], "every sequence of operations on a bit reader and every byte of the stream",
  "Everything is parsed through this reader; a slip that needs a particular place in the byte, width and operation before it is not met by the few sequences tests use.",
  ["jxlio/bitreader.go"],
  [("bit reader", "jxlio/bitreader.go")],
  observe=["values returned by the bit reader", "BitsRead, GetBitsCount"]),
P("P25", "Places in a frame, and the contexts they decode with, are those of the format",
  "For every frame size, subsampling, place and channel, ISO/IEC 18181-1 fixes: the padded frame size, where each group and LF group lies and how large it is, which LF group a group belongs to and where in it, the place a coordinate beyond the edge is mirrored to, how many colour channels a frame has and whether it is shown. It also fixes the contexts of the varblock decoder: block context, LF index, predicted number of non-zero coefficients, coefficient context, and which transform types are transposed; jxl-go computes exactly these.",
  ["inputs"], "every place of every frame size, with every subsampling, context map and transform type",
  "The interesting values lie at right and bottom edges, in frames of several groups and in rare context maps; a context off by one makes everything after it decode to something else.",
  ["frame/Frame.go", "frame/HFCoefficients.go", "frame/LFCoefficients.go", "frame/transformtype.go", "jxlio/", "frame/PassGroup.go"],
  [("frame geometry", "frame/Frame.go"), ("coefficient contexts", "frame/HFCoefficients.go"), ("LF index", "frame/LFCoefficients.go")],
  observe=["sizes, places and contexts returned by the named computations"]),
P("P26", "Filters, colour, blending and orientation compute the format's pixels",
  "For every image content, size and setting of the headers, the steps after decoding compute the samples ISO/IEC 18181-1 lays down, borders, crops and number of goroutines included: undoing chroma subsampling, the Gaborish and edge-preserving filters, upsampling with its kernels and clamping, XYB to linear light and conversion between integer and fractional samples. The same holds for blending a frame onto the canvas (every mode, colour and extra channels, alpha modes, clamping, crop, reference slot) and for the orientation of the image.",
  ["inputs"], "every image and frame: sizes, crops, blend modes and channels, orientations, filter settings, upsampling factors",
  "What is wrong is one border row, one blend mode with one alpha mode, one filter pass: the image still looks plausible, and sample files use few of the combinations.",
  ["frame/Frame.go", "core/jxl_codestream_decoder.go", "image/imagebuffer.go", "colour/OpsinInverseMatrix.go", "bundle/image_header.go"],
  [("filters and upsampling", "frame/Frame.go"), ("blending and orientation", "core/jxl_codestream_decoder.go"), ("sample conversion", "image/imagebuffer.go"), ("XYB", "colour/OpsinInverseMatrix.go"), ("upsampling kernels", "bundle/image_header.go")],
  observe=["samples of the frame and canvas buffers after each step"]),
]

NOT_APPLICABLE = {}
CLAIMS = {
 "P01": ("interprocedural error-propagation path analysis over SSA and a VTA call graph", "Every fallible call site reachable from the API is followed on every control-flow path until its error is returned, stored in a result the owner returns, or proven nil; assumes the standard library documents its errors correctly."),
 "P02": ("error-propagation path analysis restricted to goroutine bodies and hand-over objects", "Covers every go statement in the library and the channels and captured variables used to hand errors over; assumes channel and WaitGroup semantics of the language."),
 "P03": ("error-propagation path analysis restricted to writer/compressor calls", "Every Write/Close/Flush/binary.Write site reachable from the exporters; hash.Hash and bytes.Buffer writes are exempt because they cannot fail."),
 "P04": ("typed call-site rule (complete reads only) plus error propagation of those reads", "Decides the structural cause of chunk dependence: no single Read, and no short-read error dropped."),
 "P05": ("call-graph reachability of terminating constructs over SSA", "Explicit panics, exits, fatal loggers and unchecked type assertions; implicit run-time panics such as an index out of range are not covered."),
 "P06": ("dataflow over SSA return values", "Every return of every API-reachable function with a pointer or interface result next to an error."),
 "P07": ("taint-style rules over SSA: nondeterminism sources and order-dependent constructs", "Every call site, map range, select, channel receive and pointer-to-integer conversion reachable from the API, and every write of workers to shared memory under a lock or by atomics; does not claim independence from the number of workers requested."),
 "P08": ("call-graph reachability of effectful standard library functions", "Every call reachable from the API against a table of packages and functions that touch the process or the outside world; the logging library is the permitted exception."),
 "P09": ("field-sensitive, call-site-sensitive points-to analysis; write effects against package-level memory", "Every store, map update, copy and append target in every API-reachable function context; assumes no unsafe or reflection (there is none)."),
 "P10": ("points-to analysis with a symbolic image tree; write effects of the exporters", "Every write reachable from every exported operation that takes a decoded image, setters aside."),
 "P11": ("typestate machines per synchronisation object over SSA paths, symbolic channel capacity against send counts", "Every goroutine start, wait group, channel and mutex reachable from the API; assumes that the workers' own computations terminate."),
 "P12": ("points-to analysis with goroutine-tagged contexts, ownership marks on indices, locksets", "Every access of every worker to memory it did not allocate, for every goroutine start reachable from the API, in every calling context; overlapping or displaced index ranges (an off-by-one row span) are not decided."),
 "P14": ("path-sensitive interprocedural typestate of entropy streams named by access path", "Every function that reads symbols, every successful return path; streams kept inside slices or maps are not followed."),
 "P15": ("interprocedural panic-edge analysis over SSA with deferred recover handlers", "Every public decode/query/export operation, every goroutine body, every lock and join; exhaustion of memory or of the stack cannot be recovered and is outside the rule."),
 "P13": ("points-to analysis with memory SSA: ownership and typestate of pooled buffers", "Every release site in every calling context: aliasing with live objects, double release, use after release, and zeroing on acquisition."),
 "P16": ("termination analysis of natural loops and recursive call groups over SSA: progress measures and counter bounds per way round", "Every loop and recursive group reachable from the API; assumes finite input and acyclic trees, bounds nothing about how long a decode takes."),
 "P17": ("points-to analysis with a symbolic tree for kept frames and a forward walk from each save", "Every save and every write in every API-reachable function context; decides buffer identity, not the timing of the save."),
 "P18": ("guarded value-flow analysis of the parsers over SSA with decision diagrams, matched against a layout specification", "Every read, repeated group, rejection and listed field of every image-header parser under every combination of conditions; values are compared on a finite set containing all bounds and constants; the numbers in default weight tables are not compared."),
 "P19": ("guarded value-flow analysis of the parsers over SSA with decision diagrams, matched against a layout specification", "Every read, repeated group and listed field of the frame-header parsers under every combination of conditions; values are compared on a finite set containing all bounds and constants; animation is unsupported by the decoder and left out."),
 "P20": ("guarded value-flow analysis of the parsers over SSA with decision diagrams, matched against a layout specification", "Every read, repeated group, rejection and listed field of 22 section parsers under every combination of conditions; values are compared on a finite set containing all bounds and constants; symbol-by-symbol decoding of coefficients and modular samples, and complex prefix codes, are not covered."),
 "P21": ("guarded value-flow analysis of the decoders over SSA with decision diagrams, matched against a layout specification", "Every read and result of eleven coding functions under every combination of conditions, on a finite set of parameters and values containing all bounds and constants; the loop of U64 and of varints beyond its first round is not followed."),
 "P22": ("constant folding of table literals over the type-checked syntax tree, matched with the standard's values", "About 2300 values in 285 tables, records and codes; names, nesting, element type and place do not matter; a table that is computed instead of written down is not compared."),
 "P23": ("guarded value-flow analysis of the arithmetic over SSA with decision diagrams, matched against the formulas of the format", "About 950 formulas in 740 places (13 places in a channel per predictor and property, 42 colour transforms, lines of two to four samples), compared on a finite set of neighbour values; the weights and the final value of the self-correcting predictor are not compared, nor the extent of channels."),
 "P24": ("guarded value-flow analysis of the bit reader over SSA with a model of the byte stream, matched against the bits in order", "About 800 sequences of up to six operations from a new reader, covering each operation at each place in a byte after each kind of operation, for symbolic bytes; widths are sampled; what is returned at the end of the stream is not compared."),
 "P25": ("guarded value-flow analysis of the geometry and context computations over SSA with decision diagrams, matched against the formulas of the format", "263 formulas in 17 functions for chosen frame sizes, subsamplings, places and context maps (edges and corners included); the loops that use these values are not followed."),
 "P26": ("guarded value-flow analysis of the pixel pipeline over SSA with decision diagrams, matched against the formulas of the format", "404 units in 9 functions: small sizes (borders, corners, crops), distinct sample values and chosen header settings per unit; goroutines are followed in one order (P12 decides that order is immaterial); noise, splines, patches and the inverse DCT are not compared."),
}
