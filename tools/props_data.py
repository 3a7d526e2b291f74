CORE = "jxl/src/api/decoder.rs jxl/src/api/inner/process.rs jxl/src/api/inner/codestream_parser/mod.rs jxl/src/api/inner/codestream_parser/frame_info.rs jxl/src/api/inner/codestream_parser/image_info.rs jxl/src/api/inner/box_parser.rs".split()
PBT = "property-based testing: "

prop("C01", "Any byte sequence gives an image or a clean error",
     "Decoding any sequence of bytes, delivered in any way and with any options, ends in a completed image, a request for more input, or an error value. It never panics, overflows arithmetic, runs forever, or touches memory outside the buffers it was given.",
     ["inputs", "configurations"], "every byte string, option set and way of feeding it (mutated and spliced valid files, synthesized streams with damaged fields, random bytes)",
     "The tests decode a fixed set of valid files, a few of them with flipped bits; a panic needs one particular damaged field reached through one particular code path.",
     CORE + ["jxl/src/frame/mod.rs", "jxl/src/frame/modular/mod.rs", "jxl/src/bit_reader.rs", "jxl/src/headers/frame_header.rs", "jxl/src/render/low_memory_pipeline/mod.rs"],
     [("state machine of the public decoder", "jxl/src/api/inner/process.rs"), ("bounds and limits while parsing", "jxl/src/frame/modular/mod.rs"), ("sandboxed region renderer", "jxl/src/render/low_memory_pipeline/render_group.rs")],
     PBT + "structure-aware mutation fuzzing with overflow checks, canaries and a hang monitor",
     "Random search over mutated and synthesized files in a build with debug assertions and overflow checks; a case fails on a panic, a hang over 100 s, a damaged canary around the output, or an out-of-range result. No absence proof.")

prop("C03", "The way the input is delivered does not change the result",
     "Feeding a file in any sequence of chunks, from any kind of input source, with any mix of buffered and partly consumed data gives exactly the same image information, frames, pixels and outcome as feeding it as one slice. Running out of input always leaves the decoder able to continue where it stopped.",
     ["inputs", "schedules"], "every split of the input into deliveries and every legal input source behaviour, for every file",
     "The tests cover one-byte and fixed-size chunks on the sample files with a slice source; the defects found here needed a particular boundary inside a particular header, or a source that skips or under-reports.",
     CORE + ["jxl/src/api/input.rs", "jxl/src/api/inner/process.rs"],
     [("input buffering", "jxl/src/api/inner/process.rs"), ("box parsing on partial data", "jxl/src/api/inner/box_parser.rs"), ("partial section parsing", "jxl/src/api/inner/codestream_parser/frame_info.rs")],
     PBT + "metamorphic comparison of generated delivery schedules with a single-slice decode",
     "Bit-exact comparison of every output sample, info field, frame header and the final outcome.")

prop("C04", "Container layout does not change the decoded image",
     "The same codestream decodes to the same result naked, in one codestream box, or split over any number of partial codestream boxes in any permitted order, with any other boxes between them and any box length encoding. The reported length of the file ends right after the last byte of the image.",
     ["inputs"], "every codestream and every legal way of wrapping it",
     "The tests have a handful of fixed containers; the layouts (empty boxes, out-of-order boxes, 64-bit lengths, boxes up to the end of file, split anywhere) cannot be enumerated by samples.",
     CORE, [("box iteration and reordering", "jxl/src/api/inner/box_parser.rs"), ("file length accounting", "jxl/src/api/inner/process.rs")],
     PBT + "metamorphic comparison of generated container layouts with the naked codestream",
     "Bit-exact comparison; layouts are produced by an independent box writer. Frames that start inside a reordered box may be rejected, which is what the decoder documents.")

prop("C05", "Parallel decoding gives the result of sequential decoding",
     "Decoding with any parallel runner, whatever number of threads it uses and whatever order it executes the tasks of a batch in, gives exactly the pixels, information and outcome of decoding without one. No task is lost or executed on stale data.",
     ["inputs", "schedules"], "every task order and interleaving a runner may choose, for every file",
     "The tests run one thread pool on the sample files; orders such as reversed, random, or interleaved with yields between tasks are not sampled.",
     ["jxl/src/api/mod.rs", "jxl/src/frame/decode.rs", "jxl/src/render/low_memory_pipeline/group_scheduler.rs", "jxl/src/render/low_memory_pipeline/input_buffers.rs", "jxl/src/api/inner/codestream_parser/frame_info.rs"],
     [("group completion counters", "jxl/src/render/low_memory_pipeline/input_buffers.rs"), ("area scheduling", "jxl/src/render/low_memory_pipeline/group_scheduler.rs")],
     PBT + "generated task schedules (permuted, staggered, multi-threaded) compared with sequential decoding",
     "Bit-exact comparison. Schedules are task permutations plus real threads with generated delays; instruction-level interleavings are sampled by the OS, not enumerated.")

prop("C06", "The instruction set does not change what is decoded",
     "Whichever vector instruction set of the processor is used, decoding a file gives the same information, frames and outcome, and the same samples: identical ones for integer data, and within rounding of floating-point arithmetic otherwise.",
     ["inputs", "configurations"], "every file on every instruction set level available (scalar, SSE4.2, AVX2, AVX-512)",
     "The tests compare single kernels across levels on a few inputs; whole-file agreement for every width, tail length and data pattern is not sampled.",
     ["jxl_simd/src/lib.rs", "jxl_simd/src/x86_64/avx.rs", "jxl_simd/src/x86_64/sse42.rs", "jxl_simd/src/scalar.rs", "jxl/src/render/stages/epf/epf1.rs", "jxl_transforms/src/transform.rs"],
     [("runtime dispatch", "jxl_simd/src/lib.rs")],
     PBT + "differential decoding at two instruction set levels",
     "Samples must agree within 1e-4 relative to max(1, value); the levels above what the processor supports are not reached.")

prop("C07", "Output formats and options only transform the samples",
     "Whatever output format is requested (colour type, channel order, sample type, bit depth, byte order, interleaved or separate extra channels), each sample is the nearest representable value of the same sample as the decoder gives it in 32-bit float, within one step where 8-bit output is dithered; an alpha channel that the image does not have is opaque. Rendering spot colours mixes each spot colour into the colour in proportion to its channel, and premultiplication multiplies every colour sample by alpha unless the image already is premultiplied; both leave everything else, including frames later blended on this one, unchanged.",
     ["inputs", "configurations"], "every file, every combination of output format, spot colour rendering and premultiplication",
     "The tests decode a few images into a few formats; a missing clamp, swapped bytes of one format or a channel that is forgotten for one colour type needs the particular combination.",
     ["jxl/src/api/data_types.rs", "jxl/src/frame/render.rs", "jxl/src/render/stages/convert.rs", "jxl/src/render/stages/spot.rs", "jxl/src/render/stages/premultiply_alpha.rs", "jxl/src/render/low_memory_pipeline/save/mod.rs", "jxl/src/render/low_memory_pipeline/save/identity.rs", "jxl/src/render/save.rs", "jxl/src/util/float16.rs"],
     [("conversion to output formats", "jxl/src/render/stages/convert.rs"), ("order of stages", "jxl/src/frame/render.rs")],
     PBT + "differential decoding against all samples in 32-bit float, transformed by a reference model",
     "Where integer output of an XYB image is given in another colour space than float output, colours are compared with 16-bit output instead. Half floats outside the documented clamp of PQ and HLG signals are not compared.")

prop("C08", "Every requested sample is written, and nothing else",
     "When a frame is reported as complete, every sample of every requested output has been written, whatever the stride, format, orientation and frame geometry. Bytes outside the requested rows, and outputs that were not handed to the decoder, are never modified.",
     ["inputs", "configurations"], "every file, output format, row stride and set of requested outputs",
     "The tests read only the samples they expect with tightly packed buffers; a skipped row or an over-wide store in the padding is invisible to them.",
     ["jxl/src/api/data_types.rs", "jxl/src/image/output_buffer.rs", "jxl/src/render/low_memory_pipeline/save/mod.rs", "jxl/src/render/buffer_splitter.rs", "jxl/src/render/save.rs"],
     [("splitting of output buffers", "jxl/src/render/buffer_splitter.rs"), ("storing rows", "jxl/src/render/low_memory_pipeline/save/mod.rs")],
     PBT + "two-fill and canary oracle over generated buffer layouts",
     "Each case decodes into buffers with different initial contents, generated padding and guard bytes and compares all of them.")

prop("C09", "Orientation only permutes pixels",
     "An image with any orientation shows exactly the samples of the same image stored upright, moved to the place the orientation prescribes, in colour and in all extra channels and output formats. The reported size, and the preview, follow the same rule.",
     ["inputs", "configurations"], "every file, each of the eight orientations, every output format",
     "The tests have eight fixed images of one size and compare with a stored reference; geometry depends on size, group layout, cropping and the output format.",
     ["jxl/src/headers/image_metadata.rs", "jxl/src/render/save.rs", "jxl/src/render/low_memory_pipeline/save/mod.rs", "jxl/src/render/buffer_splitter.rs", "jxl/src/api/inner/codestream_parser/mod.rs"],
     [("mapping display to storage coordinates", "jxl/src/headers/mod.rs")],
     PBT + "metamorphic: the orientation field is rewritten and the output permuted by a reference mapping",
     "Bit-exact for floating-point and integer formats at full precision, up to the position-dependent dither where 8-bit output needs rounding.")

prop("C10", "Seeking and skipping show the frames sequential decoding shows",
     "Jumping to any visible frame with the positions collected by a scan, in any order and any number of times, gives exactly the frame that decoding from the start gives. Skipping any set of frames leaves all the others unchanged, and the scan reports the true number, durations and names of frames.",
     ["inputs", "histories"], "every animation or layered file, every sequence of seeks and skips",
     "The tests seek to each frame of two sample files in order; the reference frames, blending sources and file positions needed depend on the structure of the file and the history of jumps.",
     CORE + ["jxl/src/api/inner/codestream_parser/frame_scan_info.rs", "jxl/src/frame/decode.rs"],
     [("scan of visible frames", "jxl/src/api/inner/codestream_parser/mod.rs"), ("restart at a file position", "jxl/src/api/inner/process.rs")],
     PBT + "stateful: generated histories of seeks and skips against sequential decoding",
     "Bit-exact comparison of every frame.")

prop("C11", "Flushing partial pixels never changes the final image",
     "Asking for the pixels decoded so far, at any point of the input and any number of times, never changes the final samples, information or outcome of decoding. A flush that reports nothing new leaves the output untouched.",
     ["inputs", "histories"], "every file, every set of points at which a flush is requested and every delivery of the input",
     "The tests flush progressive sample files at a few points and look at the image quality; interactions of flushing with later passes, blending and saved frames are not checked for every history.",
     ["jxl/src/api/decoder.rs", "jxl/src/api/inner/codestream_parser/frame_info.rs", "jxl/src/frame/decode.rs", "jxl/src/frame/render.rs", "jxl/src/render/low_memory_pipeline/mod.rs"],
     [("rendering of incomplete groups", "jxl/src/frame/render.rs"), ("re-rendering after a flush", "jxl/src/render/low_memory_pipeline/mod.rs")],
     PBT + "stateful: generated flush histories against a decode without flushes",
     "Bit-exact comparison of the completed frames.")

prop("C12", "The sample limit bounds what a file can make the decoder allocate",
     "With a limit on the number of samples, a file that exceeds it is rejected with an error, and no file, however damaged, makes the decoder allocate more than a fixed multiple of the limit and the input size plus a constant (embedded ICC profiles have a fixed limit of their own). A valid file within the limit is not rejected.",
     ["inputs", "configurations"], "every byte string and every limit",
     "The tests check one oversized header; allocation happens in dozens of places sized from independently controllable fields.",
     ["jxl/src/api/options.rs", "jxl/src/frame/mod.rs", "jxl/src/image/raw.rs", "jxl/src/frame/modular/mod.rs", "jxl/src/api/inner/codestream_parser/image_info.rs"],
     [("size checks", "jxl/src/api/inner/codestream_parser/image_info.rs"), ("fallible allocation", "jxl/src/image/raw.rs")],
     PBT + "fuzzing under a counting allocator",
     "Peak memory of the decoding is measured for each generated file and compared with the bound.")

prop("C13", "A truncated file gives a prefix and never a wrong success",
     "Decoding any proper prefix of a file ends with a request for more input and never with a completed image or an error. Everything reported before that point equals what the whole file gives, and supplying the rest of the file completes the same image.",
     ["inputs", "crash_points"], "every file cut at every position",
     "The tests truncate a few files at a few places; the position decides which of the parsers runs dry and in which state.",
     CORE, [("out-of-bounds reporting", "jxl/src/bit_reader.rs"), ("restart after running dry", "jxl/src/api/inner/codestream_parser/mod.rs")],
     PBT + "fault injection at generated cut positions against the complete decode",
     "Bit-exact comparison of everything delivered before the cut and after resuming.")

prop("C14", "Entropy-coded streams decode to exactly the encoded symbols",
     "For any valid choice of code parameters (prefix codes or range coding, hybrid integer splits, context clustering, repetition coding, window distances), reading an encoded stream gives exactly the encoded values in order and consumes exactly its bits. Parsing of damaged code descriptions gives an error or a usable code, never a panic.",
     ["inputs"], "every sequence of values and every legal code description",
     "The tests decode a few fixed streams; the code description language has many rarely used forms (complex prefix codes, degenerate alphabets, explicit repetitions, special distances, full cluster maps).",
     ["jxl/src/entropy_coding/decode.rs", "jxl/src/entropy_coding/ans.rs", "jxl/src/entropy_coding/huffman.rs", "jxl/src/entropy_coding/context_map.rs", "jxl/src/entropy_coding/hybrid_uint.rs", "jxl/src/bit_reader.rs"],
     [("symbol reader", "jxl/src/entropy_coding/decode.rs"), ("distribution parsing", "jxl/src/entropy_coding/ans.rs")],
     PBT + "round trip with an independent encoder with random code parameters",
     "The encoder was written from the specification and exercises all documented forms.")

MOD = "jxl/src/frame/modular/mod.rs jxl/src/frame/modular/tree.rs jxl/src/frame/modular/predict.rs jxl/src/frame/modular/decode/bitstream.rs jxl/src/frame/modular/decode/specialized_trees.rs jxl/src/frame/modular/transforms/meta_apply.rs jxl/src/frame/modular/transforms/step.rs jxl/src/frame/modular/transforms/palette.rs jxl/src/frame/modular/transforms/squeeze.rs jxl/src/frame/modular/transforms/rct.rs".split()
prop("C02", "Losslessly coded images decode to exactly the coded samples",
     "Every sample of a losslessly (modular) coded image comes back exactly, in every output format that can represent it. This holds for every legal combination of context trees, predictors, weighted-predictor settings, transforms (palettes, colour transforms, squeeze, global or per group), group sizes, passes, bit depths, extra channels and channel resolutions.",
     ["inputs", "configurations"], "every image and every legal way of coding it",
     "The tests compare some dozens of files produced by one encoder, which uses a small part of the format; combinations such as local palettes of squeezed channels over several groups are legal but never sampled.",
     MOD, [("assignment of channels to sections and grids", "jxl/src/frame/modular/mod.rs"), ("inverse transforms", "jxl/src/frame/modular/transforms/step.rs"), ("context tree evaluation, with specialised paths", "jxl/src/frame/modular/decode/specialized_trees.rs")],
     PBT + "round trip with an independent encoder and reference model making random coding choices",
     "The encoder (harness/src/enc) was written from the specification and chooses everything at random; a model of the inverse transforms gives the expected samples when they are not the coded ones.")

prop("C19", "Frames combine into the image the format prescribes",
     "The shown image is what the frames define: each frame, cropped or extended to the canvas at its signed offset, blended channel by channel with the prescribed mode, alpha channel, clamping and source slot, and saved for later use as its header says. Names and durations belong to the right frames, and zero-duration frames are merged into the next shown one.",
     ["inputs", "histories"], "every sequence of frames with any blending, cropping, saving and reference slots",
     "The tests decode a few animations produced by one encoder; sequences of frames reading and overwriting slots in all modes form a large state space of which they visit a handful of points.",
     ["jxl/src/render/stages/blending.rs", "jxl/src/features/blending.rs", "jxl/src/render/stages/extend.rs", "jxl/src/frame/mod.rs", "jxl/src/frame/decode.rs", "jxl/src/headers/frame_header.rs"],
     [("blending formulas", "jxl/src/features/blending.rs"), ("saved frames", "jxl/src/frame/mod.rs")],
     PBT + "stateful model-based testing: generated frame sequences against a reference compositor with error bounds",
     "The reference works in double precision with an interval of the single-precision error; integer-only sequences must agree exactly.")

ST = "jxl/src/render/stages/"
MODEL = "The reference is written in double precision from the format's definition and carries a bound on the single-precision error of each sample; integer outputs may differ by that bound only."

prop("C15", "Headers are reported as coded, at their positions",
     "Image size, orientation, sample formats, extra channels, animation, tone mapping, colour encoding, frame names and durations are reported exactly as the file codes them. Every frame's position, and the place where decoding has to start to seek to it, is correct for every history of frames.",
     ["inputs", "histories", "schedules"], "every file header, sequence of frame headers and division of the input in chunks",
     "The tests parse the headers of a handful of files; the headers have dozens of optional fields with several codings each, and seek targets depend on the whole history of frames.",
     ["jxl/src/headers/mod.rs", "jxl/src/headers/encodings.rs", "jxl/src/headers/image_metadata.rs", "jxl/src/headers/size.rs", "jxl/src/headers/frame_header.rs", "jxl/src/headers/color_encoding.rs", "jxl/src/headers/extra_channels.rs", "jxl/src/headers/toc.rs", "jxl/src/headers/permutation.rs", "jxl/src/api/inner/codestream_parser/image_info.rs", "jxl/src/api/inner/codestream_parser/frame_info.rs", "jxl/src/api/inner/codestream_parser/frame_scan_info.rs"],
     [("field coders", "jxl/src/headers/encodings.rs"), ("basic info", "jxl/src/api/inner/codestream_parser/image_info.rs"), ("seek targets", "jxl/src/api/inner/codestream_parser/frame_scan_info.rs")],
     PBT + "generated headers (written by an independent encoder, choosing among the codings of each field) compared with what is reported",
     "Sections of the frames hold noise and are not decoded; every field of a header is generated, with equivalent codings of integers. Default upsampling weights, opsin matrices and the like are only parsed here; C02, C18 and C21 check their effect.")

prop("C16", "Embedded ICC profiles are recovered byte for byte",
     "The ICC profile reported for a file is exactly the one that was embedded, for every way of coding it: header prediction, tag lists, shuffles, predictors of each order, width and stride, and entropy coding with any contexts. This does not depend on how the input is divided in chunks.",
     ["inputs", "schedules"], "every ICC profile (valid or not), every coding of it and division of the input in chunks",
     "The tests decode the profiles of a few files written by one encoder, which uses few of the commands.",
     ["jxl/src/icc/mod.rs", "jxl/src/icc/header.rs", "jxl/src/icc/stream.rs", "jxl/src/icc/tag.rs", "jxl/src/entropy_coding/decode.rs", "jxl/src/api/inner/codestream_parser/image_info.rs"],
     [("commands and tags", "jxl/src/icc/tag.rs"), ("incremental reading", "jxl/src/icc/mod.rs"), ("rewinding the symbol reader", "jxl/src/entropy_coding/decode.rs")],
     PBT + "round trip through an independent encoder of profiles, fed in random chunks",
     "Profiles are synthetic (headers, tag tables and tag data with the structures that the predictors know, with deviations). For 4-wide shuffles of lengths that are no multiple of 4 the text of the standard is taken as right.")

prop("C17", "Generated ICC profiles describe the colour encoding they stand for",
     "For every colour encoding that has one, the ICC profile generated for it is well formed (sizes, tag table, checksum, required tags) and describes that encoding: white point, adaptation, primaries, transfer curve, code points, intent, and tables for HDR and XYB encodings evaluate to the colours of the encoding. Comparison and linear versions of encodings agree with their parts.",
     ["inputs"], "every combination of colour space, white point, primaries (named or custom), transfer function (named or any gamma) and rendering intent",
     "The tests look for tag names in the profiles of a few encodings and never evaluate a curve, matrix or table; whole combinations (gray or custom white points with PQ or HLG) had invalid curves.",
     ["jxl/src/api/color.rs", "jxl/src/api/xyb_constants.rs", "jxl/src/color/tf.rs"],
     [("profile generation", "jxl/src/api/color.rs"), ("constants of the XYB profile", "jxl/src/api/xyb_constants.rs")],
     PBT + "generated encodings, profiles parsed and evaluated by an independent reader against a double-precision model",
     "The tone mapping in profiles of HDR encodings is compared with the one of the reference implementation (BT.2408 to 250 nits, HLG at 80 nits, gamut mapping) at the grid points of the table.")

prop("C18", "XYB images are converted to the requested colours as specified",
     "Images coded in XYB are converted to the colour space and transfer function of their header by the specified formulas. The opsin matrix and biases, intensity target, primaries, white point, transfer curves (sRGB, linear, BT.709, PQ, HLG, DCI and gamma) and the image's quantization factors all have their prescribed effect.",
     ["inputs", "configurations"], "every XYB sample, opsin matrix, intensity target, white point, set of primaries and transfer function",
     "The tests convert a few samples with the default matrix and compare kernels with each other; custom matrices, primaries, dark samples and other intensity targets are not sampled.",
     [ST + "xyb.rs", ST + "from_linear.rs", "jxl/src/color/tf.rs", "jxl/src/frame/color_correlation_map.rs", "jxl/src/headers/color_encoding.rs", "jxl/src/util/fast_math.rs"],
     [("XYB to linear", ST + "xyb.rs"), ("transfer functions", "jxl/src/color/tf.rs")],
     PBT + "generated XYB images against a double-precision reference model with error bounds",
     MODEL + " Values beyond the range of the transfer functions, and images whose colour cannot be output directly, are not compared.")

prop("C20", "Patches are drawn where and how the format prescribes",
     "Every patch copies the described rectangle of a saved frame to each listed position, blending each channel with its own mode, alpha channel and clamping, in the listed order. This holds wherever the patch lies relative to groups and frame edges and however many overlap.",
     ["inputs", "histories"], "every patch dictionary over every history of saved frames",
     "The tests decode a handful of files with patches made by one encoder, which uses a single blend mode and few overlaps.",
     ["jxl/src/features/patches.rs", ST + "patches.rs", "jxl/src/features/blending.rs", "jxl/src/frame/decode.rs"],
     [("patch dictionary", "jxl/src/features/patches.rs"), ("row lookup of patches", "jxl/src/features/patches.rs")],
     PBT + "generated patch dictionaries against a reference model with error bounds",
     MODEL)

prop("C21", "Upsampled frames and channels are interpolated as specified",
     "Colour and extra channels coded at a half, quarter or eighth of the resolution are enlarged with the specified kernels, default or custom, with mirrored borders and clamping to the neighbourhood. The result does not depend on group boundaries and has exactly the frame's size.",
     ["inputs", "configurations"], "every image, upsampling factor of colour and of each extra channel, and set of kernel weights",
     "The tests compare the kernels with constant images and decode two sample files; borders of odd-sized frames, custom weights and mixed factors are not sampled.",
     [ST + "upsample.rs", "jxl/src/headers/transform_data.rs", "jxl/src/render/low_memory_pipeline/render_group.rs", "jxl/src/render/low_memory_pipeline/mod.rs", "jxl/src/headers/frame_header.rs"],
     [("kernels", ST + "upsample.rs"), ("row scheduling of scaled stages", "jxl/src/render/low_memory_pipeline/render_group.rs")],
     PBT + "generated upsampled frames against a reference model with error bounds",
     MODEL)

prop("C22", "Restoration filters compute what the format specifies",
     "Gaborish smoothing and every iteration of the edge-preserving filter are applied with the signalled weights, strengths and border rules, at every position of the frame. The result does not depend on how the frame is divided in groups.",
     ["inputs", "configurations"], "every image and every set of filter parameters",
     "The tests compare vector and scalar kernels on random rows and decode files with default weights; custom weights, scales and borders are not sampled.",
     [ST + "gaborish.rs", ST + "epf/epf0.rs", ST + "epf/epf1.rs", ST + "epf/epf2.rs", ST + "epf/common.rs", "jxl/src/headers/frame_header.rs", "jxl/src/features/epf.rs"],
     [("gaborish", ST + "gaborish.rs"), ("edge-preserving filter", ST + "epf/common.rs")],
     PBT + "generated filter parameters and images against a reference model with error bounds",
     MODEL)

prop("C23", "VarDCT frames reconstruct the image the coefficients describe",
     "The samples of a lossy (VarDCT) frame are the inverse transforms, of the signalled kinds and sizes, of the coded coefficients dequantized with the signalled tables, scales, chroma-from-luma factors and low-frequency image, within rounding. This holds for every combination of transforms, orders, contexts, passes, histograms, groups and low-frequency frames.",
     ["inputs", "configurations"], "every frame coded with variable-size transforms",
     "The tests decode files written by one encoder and check each inverse transform alone; rare transforms, custom tables, orders, context maps, several passes or histograms, low-frequency frames and their combinations are not sampled.",
     ["jxl/src/frame/group.rs", "jxl/src/frame/quantizer.rs", "jxl/src/frame/quant_weights.rs", "jxl/src/frame/coeff_order.rs", "jxl/src/frame/block_context_map.rs", "jxl/src/frame/color_correlation_map.rs", "jxl/src/frame/adaptive_lf_smoothing.rs", "jxl/src/frame/modular/mod.rs", "jxl/src/frame/decode.rs", "jxl_transforms/src/transform_map.rs"],
     [("coefficient decoding and inverse transforms", "jxl/src/frame/group.rs"), ("quantization tables", "jxl/src/frame/quant_weights.rs"), ("low-frequency image and block metadata", "jxl/src/frame/modular/mod.rs")],
     PBT + "generated VarDCT frames (written by an independent encoder) against a reference model with error bounds",
     MODEL)

prop("C24", "Noise is the specified pseudo-random field",
     "The noise added to a frame is the deterministic field the format defines: seeded by frame counters and group position, filtered, scaled by the signalled intensity curve, and added with the specified channel mixing. It is the same for any group layout, threads and upsampling.",
     ["inputs", "histories"], "every frame sequence with noise, image and noise curve",
     "The tests check the generator's first values and decode one or two files; seeding by frame history, group borders and curve lookup are not sampled.",
     ["jxl/src/features/noise.rs", ST + "noise.rs", "jxl/src/util/xorshift128plus.rs", "jxl/src/frame/decode.rs"],
     [("noise generation", "jxl/src/frame/decode.rs"), ("noise stages", ST + "noise.rs")],
     PBT + "generated noisy frame sequences against a reference model with error bounds",
     MODEL)

prop("C25", "Splines are drawn as the format specifies",
     "Each spline's control points, coefficients, quantization and colour correlation define a curve whose colour and width vary along its arc, and exactly that is added to the frame. The result does not depend on groups or on the position relative to the frame's edges.",
     ["inputs"], "every set of splines on every frame",
     "The tests draw three fixed splines and decode two files; the coded form (deltas, zero coefficients, repeated points, points outside the frame) is a large space.",
     ["jxl/src/features/spline.rs", ST + "splines.rs", "jxl/src/frame/color_correlation_map.rs"],
     [("decoding and drawing", "jxl/src/features/spline.rs")],
     PBT + "generated splines against a reference model with error bounds",
     MODEL + " Pixels at the cut-off distance of a segment may have either value.")

prop("C30", "YCbCr frames with any chroma subsampling are reconstructed",
     "Frames coded in YCbCr with any combination of horizontal and vertical subsampling factors per channel are enlarged and converted to RGB by the specified filters and matrix. Filters, upsampling and features applied after that see the complete enlarged channels.",
     ["inputs", "configurations"], "every image and combination of subsampling factors, with other frame features enabled",
     "The tests decode a few transcoded photographs with two common subsampling modes and no filters, so interactions of subsampling with other stages are never exercised.",
     [ST + "chroma_upsample.rs", ST + "ycbcr.rs", "jxl/src/headers/frame_header.rs", "jxl/src/render/low_memory_pipeline/render_group.rs", "jxl/src/frame/modular/mod.rs"],
     [("chroma upsampling", ST + "chroma_upsample.rs"), ("row scheduling", "jxl/src/render/low_memory_pipeline/render_group.rs")],
     PBT + "generated YCbCr frames against a reference model with error bounds",
     MODEL)

prop("C26", "Files written by the command line tool hold exactly the decoded image",
     "The tool writes every sample, frame, duration (to the millisecond), loop count and colour profile that the library gives for the requested format into a valid PNG, APNG, PNM, NPY or EXR file, whatever the options (data type, bit depth, preview, partial renders, threads, precision). It succeeds exactly if the input decodes, the format can hold the image and the file was written completely; otherwise it ends with an error and never crashes.",
     ["inputs", "configurations", "faults"], "every input file (valid or damaged), output format and combination of options, and output files that cannot be written",
     "The tests run the tool's functions on a few conformance files and hardly read back what was written; animation, previews, failing writes and unusual profiles are not covered.",
     ["jxl_cli/src/main.rs", "jxl_cli/src/dec/mod.rs", "jxl_cli/src/enc/mod.rs", "jxl_cli/src/enc/png.rs", "jxl_cli/src/enc/pnm.rs", "jxl_cli/src/enc/numpy.rs", "jxl_cli/src/enc/exr.rs", "jxl_cms/src/lcms2.rs"],
     [("format and buffer choice", "jxl_cli/src/dec/mod.rs"), ("file writers", "jxl_cli/src/enc/")],
     PBT + "the tool run on generated files and options, its output read by independent parsers and compared with the library's decode",
     "EXR samples (converted to linear light by lcms2) are compared within 0.004 for values between 0 and 1 and analytic curves; the PNG crate in use cannot write cICP, so that chunk may be absent.")

prop("C27", "Parts of an image that have arrived are shown",
     "When everything that the samples of a group of a frame depend on has been received (the global and LF data of the frame, and all passes of the group and of the groups around it), the pixels decoded so far, if asked for then, hold exactly the final samples of that group, whatever the order of the sections in the file and however the data was delivered before.",
     ["inputs", "histories"], "every frame of several groups, order of sections, delivery of the input and set of points at which the partial image is asked for",
     "The tests flush a few progressive files and compare the quality with a threshold; which groups must be complete after how many bytes is never checked, so a group that stays blank or stale until the frame ends goes unnoticed.",
     ["jxl/src/api/decoder.rs", "jxl/src/api/inner/codestream_parser/frame_info.rs", "jxl/src/frame/decode.rs", "jxl/src/frame/render.rs", "jxl/src/frame/modular/mod.rs", "jxl/src/render/low_memory_pipeline/mod.rs"],
     [("choice of groups to render", "jxl/src/frame/render.rs"), ("sections are decoded as they arrive", "jxl/src/api/inner/codestream_parser/frame_info.rs"), ("readiness of transforms", "jxl/src/frame/modular/mod.rs")],
     PBT + "stateful: generated deliveries with flushes, the position of every section known from the generator, partial samples against the final ones",
     "Dependence is overestimated: a group counts as complete when all groups up to 1 (filters) + the number of squeeze steps away are; after a palette with a predictor, all rows before as well. Tolerance 1e-5.")
