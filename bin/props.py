"""Which monitors decide which property, and how much they explore."""
import build
import t01
import j01
import y01
import fuzz

MAIN = ["hmain.cc", "p_lossless.cc", "p_stream.cc", "p_decode.cc", "p_format.cc", "p_enc.cc", "p_api.cc", "p_tools.cc", "mem.cc"]
HARNESSES = {
    "main": lambda b, cfg: b.harness("main", cfg, MAIN),
    "state": lambda b, cfg: b.harness("state", cfg, ["hmain.cc", "p_state.cc"], ["-I" + build.REPO + "/c"]),
    "reject": lambda b, cfg: b.harness("reject", cfg, ["hmain.cc", "p_reject.cc"]),
    "edit": lambda b, cfg: b.harness("edit", cfg, ["hmain.cc", "p_edit.cc"]),
    "fuzz": lambda b, cfg: b.harness("fuzz", cfg, ["p_fuzz.cc"], more_repo=["c/experimental/groups.cc"]),
    "prim": lambda b, cfg: b.harness("prim", cfg, ["hmain.cc", "p_prim.cc"]),
    "wasm": lambda b, cfg: b.harness("wasm", cfg, ["hmain.cc", "p_wasm.cc"], more_repo=["wasm/codec.cc"], more_flags=["-fpermissive"], ld=["-no-pie", "-Wl,--wrap=malloc", "-Wl,--wrap=free"]),
    "cbrunsli": lambda b, cfg: b.tool("cbrunsli", cfg, False),
    "dbrunsli": lambda b, cfg: b.tool("dbrunsli", cfg, False),
    "cbrunsli-groups": lambda b, cfg: b.tool("cbrunsli", cfg, True),
    "dbrunsli-groups": lambda b, cfg: b.tool("dbrunsli", cfg, True),
    "nginx": lambda b, cfg: b.contrib("ngx", cfg, "p_nginx.cc", "contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c"),
    "apache": lambda b, cfg: b.contrib("apache", cfg, "p_apache.cc", "contrib/mod_brunsli/mod_brunsli.c"),
    "jni": lambda b, cfg: b.jni(cfg),
    "groups": lambda b, cfg: b.harness("groups", cfg, ["hmain.cc", "p_groups.cc"], more_repo=["c/experimental/groups.cc"]),
}

def M(monitor, config, quick, thorough, **kw):
    d = dict(monitor=monitor, config=config, cases=(quick, thorough), harness="main")
    d.update(kw)
    return d

def FZ(mode, secs=220):
    return dict(monitor="fuzz-" + mode, config="fuzz", harness="main", cases=(secs, secs), py=fuzz.main, fuzz=mode, tiers=["thorough"])

PROPS = {
    "L01": dict(runs=[FZ("read"), M("L01", "plain", 6000, 100000), M("L01", "asan", 400, 12000)],
        rule="seeded JPEG files from an independent generator (all sampling layouts, sequential/progressive, restart, quirks, mutated bytes); non-trivial = accepted by reader and encoder, counted by hash of the file"),
    "L02": dict(runs=[M("L02", "plain", 14000, 120000)], rule="specification-conforming generated JPEG files, and unusual or mutated files the published version can compress; counted by hash"),
    "L03": dict(runs=[M("L03", "plain", 2400, 40000), M("L03", "asan", 240, 4000)], rule="arbitrary byte strings and JPEGs through the bypass container; counted by hash"),
    "L04": dict(runs=[M("L04", "plain", 1600, 40000), M("L04", "asan", 400, 8000)], rule="(image, capacity) pairs with the output buffer against an inaccessible page; counted by hash of the image"),
    "L05": dict(runs=[M("L05", "plain", 4800, 20000)], rule="photo-like and other generated JPEGs, files of real encoders; counted by hash"),
    "L06": dict(runs=[M("L06", "plain", 9600, 60000), M("L06", "asan", 2400, 8000)], rule="(parsed JPEG, sink that fails after k bytes / short writes); counted by hash"),
    "L07": dict(runs=[M("L07", "plain", 16000, 60000)], rule="parsed representations, also edited ones; counted by hash of the file"),
    "L08": dict(runs=[M("L08", "plain", 16000, 400000, harness="edit"), M("L08", "asan", 1600, 20000, harness="edit")], rule="edited representation that could be written (JPEG file, edit), counted by hash of the written file"),
    "S01": dict(runs=[FZ("stream"), M("S01", "plain", 3000, 100000), M("S04", "plain", 120, 8000), M("S01", "asan", 300, 10000)], rule="(stream, schedule of input chunks and output windows), valid, truncated and mutated streams; every two-chunk split of small streams; counted by hash of (stream, schedule)"),
    "S05": dict(runs=[M("S05", "plain", 9000, 160000), M("S05", "asan", 700, 10000)], rule="(valid stream, pieces it arrives in); counted by hash of the stream"),
    "S02": dict(runs=[M("S02", "plain", 4500, 100000), M("S02", "asan", 450, 10000)], rule="(stream, schedule) pairs, each call checked; counted by hash"),
    "S03": dict(runs=[M("S03", "plain", 4000, 60000), M("S03", "asan", 600, 10000)], rule="(stream, schedule) pairs where each input buffer is overwritten and freed after the call; counted by hash"),
    "D01": dict(runs=[FZ("decode"), M("D01", "asan", 8000, 200000), M("D01", "plain", 16000, 400000)], rule="hostile streams (structure-aware and blind mutations, corpus, random); counted by hash of the input"),
    "D02": dict(runs=[M("D02", "plain", 1600, 40000)], rule="proper prefixes of valid streams (every prefix of small ones); counted by hash of the prefix"),
    "D03": dict(runs=[M("D03", "plain", 4800, 40000)], rule="valid streams followed by six kinds of trailing bytes; counted by hash"),
    "D04": dict(runs=[M("D04", "plain", 4800, 60000), M("D04", "asan", 1200, 8000)], rule="valid streams rewritten by an independent container builder so that exactly one container rule is exercised; counted by hash"),
    "F01": dict(runs=[M("F01", "plain", 8000, 60000)], rule="streams of the pinned encoder decoded by the current decoder; counted by hash"),
    "F02": dict(runs=[M("F02", "plain", 12800, 60000)], rule="streams of the current encoder decoded by the pinned decoder; counted by hash"),
    "F03": dict(runs=[FZ("verdict"), M("F03", "plain", 30000, 100000)], rule="mutated streams, verdict of current against pinned decoder; counted by hash"),
    "D05": dict(runs=[M("D05", "plain", 16000, 60000), M("D05E", "plain", 8000, 30000)], rule="hostile and valid streams and JPEG files with every allocation counted (live and peak bytes); counted by hash of the input"),
    "E01": dict(runs=[FZ("read"), M("E01", "asan", 9600, 60000), M("E01", "plain", 24000, 200000)], rule="hostile JPEG files (mutated, truncated, spliced, random) and edited representations through reader and encoder; counted by hash"),
    "E02": dict(runs=[M("E02", "plain", 60000, 400000), M("E02", "asan", 9000, 40000)], rule="JPEG files, truncated and mutated, through the three reader modes; counted by hash"),
    "E03": dict(runs=[M("E03", "plain", 60000, 1000000, harness="reject"), M("E03", "asan", 8000, 80000, harness="reject")], rule="JPEG files with exactly one fault of a known kind (and files at the border of what is allowed); counted by hash of the file"),
    "A01": dict(runs=[M("A01", "plain", 6400, 40000), M("A01", "asan", 1200, 8000)], rule="(file, sink) pairs with sinks that refuse, accept less or claim more at a chosen call; counted by hash of the file"),
    "A02": dict(runs=[M("A02", "plain", 16000, 60000)], rule="valid and hostile streams and their prefixes; counted by hash"),
    "A03": dict(runs=[M("A03", "plain", 800, 20000), M("A03V", "vg", 32, 1600, wrap=["valgrind", "-q", "--error-exitcode=77"], cpu=600)], rule="(jpeg, stream) pairs, every operation repeated under different heap contents, histories and alignments, and under memcheck; counted by hash of the stream"),
    "A04": dict(runs=[M("A04", "tsan", 160, 8000), M("A04", "plain", 300, 20000)], rule="sets of 2-6 threads doing all operations on their own objects, under ThreadSanitizer; counted by hash of the inputs of all threads", level_note="every explored schedule is checked for data races by happens-before analysis, which covers more orders than those that ran"),
    "G01": dict(runs=[M("G01", "plain", 400, 20000, harness="groups"), M("G01", "asan", 80, 4000, harness="groups")], rule="(image, AC group size, DC group size); counted by hash of the encoded stream"),
    "G02": dict(runs=[M("G02", "plain", 300, 12000, harness="groups"), M("G02", "tsan", 120, 4000, harness="groups"), M("G02", "asan", 40, 2000, harness="groups")], rule="(image, group sizes, executor) with shuffled task orders, 2-7 free threads and the project's thread pool, each result compared with sequential execution; counted by hash of stream and number of threads"),
    "G03": dict(runs=[FZ("groups"), M("G03", "asan", 3200, 20000, harness="groups"), M("G03", "plain", 6400, 40000, harness="groups")], rule="hostile group streams (nine kinds of damage); counted by hash of the stream"),
    "G04": dict(runs=[M("G04", "plain", 3200, 20000, harness="groups"), M("G04", "tsan", 1600, 8000, harness="groups")], rule="histories of pool creation, calls with 0..300 tasks and destruction; counted by hash of the history"),
    "P01": dict(runs=[M("P01", "plain", 80000, 800000, harness="prim"), M("P01", "asan", 80000, 400000, harness="prim")], rule="(bytes, chunking, sequence of reads, peeks, drops, suspends); counted by hash of bytes and case"),
    "P02": dict(runs=[M("P02", "plain", 40000, 400000, harness="prim"), M("P02", "asan", 20000, 100000, harness="prim"), M("P02", "plain", 2400, 40000), M("P02", "asan", 600, 8000)], rule="prefix codes: built from histograms and from arbitrary length assignments and bit strings; counted by hash"),
    "P03": dict(runs=[M("P03", "plain", 64000, 400000, harness="prim"), M("P03", "asan", 32000, 100000, harness="prim"), M("P03", "plain", 2400, 40000), M("P03", "asan", 600, 8000)], rule="sequences of (bit, probability) decisions; counted by hash"),
    "P04": dict(runs=[M("P04", "plain", 64000, 400000, harness="prim"), M("P04", "asan", 32000, 100000, harness="prim"), M("P04", "plain", 2400, 40000), M("P04", "asan", 600, 8000)], rule="permutations, quantisation matrices and neighbour magnitudes; counted by hash"),
    "T01": dict(runs=[dict(monitor="T01", config="plain", harness="main", cases=(1200, 12000), py=t01.main, tool_configs=["plain", "asan"])], rule="processes of the command-line tools on generated files, streams and faults of the environment; counted by hash of the file"),
    "J01": dict(runs=[dict(monitor="J01", config="plain", harness="main", cases=(600, 12000), py=j01.main)], rule="generated and hostile files through the Java wrapper in five buffer forms and four threads, with JNI checking; counted by hash of the file"),
    "H01": dict(runs=[M("H01", "plain", 8000, 200000, harness="state"), M("H01", "asan", 1600, 20000, harness="state")], rule="(stream, chunking, sections to skip), valid, cut, damaged and inconsistent streams, with the frame known in advance or not; counted by hash"),
    "N01": dict(runs=[M("N01", "asan", 60000, 1000000, harness="nginx"), M("N01", "plain", 60000, 1000000, harness="nginx")], rule="(configuration levels, request, Accept header, file, injected fault) for the nginx module; counted by hash of the description"),
    "N02": dict(runs=[M("N02", "asan", 60000, 1000000, harness="apache"), M("N02", "plain", 60000, 1000000, harness="apache")], rule="(request, Accept header, file, injected fault) for the Apache module; counted by hash of the description"),
    "Y01": dict(runs=[dict(monitor="Y01", config="plain", harness="main", cases=(2400, 20000), py=y01.main)], rule="generated, damaged, missing and other files through four patched image libraries; counted by hash of the file"),
    "W01": dict(runs=[M("W01", "plain", 2400, 60000, harness="wasm")], rule="(file, stream, chunking) through the wrapper; counted by hash of the stream"),
}

SAN = "ASan/UBSan"
TECH = {
    "L01": "round-trip monitor over generated JPEG files, with ASan/UBSan",
    "L02": "acceptance monitor over specification-conforming generated files",
    "L03": "round-trip and guard-page monitor of the bypass container, with ASan/UBSan",
    "L04": "guard-page monitor over buffer capacities, with ASan/UBSan",
    "L05": "size monitor against the pinned version",
    "L06": "writer/reader inversion monitor with fault injection at the output callback, with ASan/UBSan",
    "L07": "field-by-field comparison monitor of decoded representations",
    "S01": "differential monitor: random and exhaustive chunkings against one-shot decoding, with ASan/UBSan",
    "S05": "online comparison of the delivered prefix with the file and the pinned decoder, allocator monitor, ASan/UBSan",
    "S02": "online checker of the streaming call contract, with ASan/UBSan",
    "S03": "buffer-poisoning monitor (consumed input overwritten and freed), with ASan/UBSan",
    "D01": "ASan/UBSan, assertions and guard pages under structure-aware hostile streams",
    "D02": "exhaustive and boundary truncation monitor",
    "D03": "trailing-bytes monitor over all interfaces",
    "D04": "container-rule monitor with an independent container builder, with ASan/UBSan",
    "D05": "allocator-interposition monitor (live and peak bytes)",
    "E01": "ASan/UBSan, assertions and guard pages under hostile JPEG files",
    "E02": "differential monitor between reading modes, with ASan/UBSan",
    "F01": "differential monitor against the pinned encoder",
    "F02": "differential monitor against the pinned decoder",
    "F03": "differential verdict monitor against the pinned decoder",
    "A01": "sink fault-injection monitor, with ASan/UBSan",
    "A02": "model check of the signature and allocator monitor of the estimate",
    "A03": "repetition monitor with heap perturbation, and valgrind memcheck",
    "A04": "ThreadSanitizer and result comparison under concurrent use",
    "G01": "round-trip and guard-page monitor of group coding, with ASan/UBSan",
    "G02": "schedule-perturbing executors, ThreadSanitizer and comparison with sequential execution",
    "G03": "ASan/UBSan and guard pages under hostile group streams",
    "G04": "exactly-once/termination monitor of the thread pool, with ThreadSanitizer",
    "P01": "model-based monitor of the bit reader, with ASan/UBSan",
    "P02": "oracle monitor of Huffman code construction, with ASan/UBSan",
    "P03": "model coder against the arithmetic decoder, with ASan/UBSan",
    "T01": "process-level monitor of the tools with environment faults, built plain and with ASan/UBSan",
    "J01": "differential monitor in a JVM with -Xcheck:jni",
    "W01": "monitor of the wrapper on the host with tracked allocations",
    "N01": "request/response monitor of the nginx module with injected faults over stand-ins of nginx's functions, with ASan/UBSan",
    "N02": "hook monitor of the Apache module over stand-ins of APR's functions, with ASan/UBSan",
    "H01": "differential monitor of resumable, headerless and partial parsing, with ASan/UBSan",
    "E03": "single-fault injection: monitor of the reader's verdict and reason, with ASan/UBSan",
    "L08": "differential monitor of edited representations against edited files and re-reading, with ASan/UBSan",
    "Y01": "differential monitor of the patched libraries (stand-ins) in separate interpreters",
    "P04": "oracle monitor of permutation coder, quantisation model and contexts, with ASan/UBSan",
}
_E = "Sampled, not proved: holds on everything the seeded workload reached; the evidence file counts what the monitors saw. "
NOTES = {
    "L01": _E + "Oracle: the input file itself. Trusts the generator only for reach.",
    "L02": _E + "Trusts the generator (written independently from the specification) to produce only conforming files.",
    "L03": _E + "Oracle: the payload; guard pages around the buffers.",
    "L04": _E + "Out-of-bounds writes hit an inaccessible page or a canary; every case tries a dozen capacities.",
    "L05": _E + "Photos, files of real encoders, other generated images and photos with compressible metadata. Thresholds: each file within 1% (+48 bytes) of the pinned version, the total within 0.3%, 10% saved on average, 90% of photos smaller.",
    "L06": _E + "Oracle: the input file; faults are injected at randomly chosen callback calls.",
    "L07": _E + "Oracle: comparison of all documented fields.",
    "E03": _E + "Oracle: the fault that was put into the file (by an own segment parser, or by an own coder of scans) and the rule it breaks.",
    "L08": _E + "Oracles: the original file with the segment cut out, replaced or added; the reader for the other edits (L02 and L06 decide the reader); a model of sequential coding that tells whether every symbol needed has a code.",
    "S01": _E + "All two-chunk splits of small streams are enumerated; larger schedules are sampled.",
    "S05": _E + "Oracles: the original file for what is delivered, the pinned decoder for when. Later delivery than the pinned decoder's counts as a violation, earlier does not.",
    "S02": _E + "Each call is checked online against the contract in the public header.",
    "S03": _E + "Each input buffer is a fresh exact-size allocation that is scribbled over and freed after the call.",
    "D01": _E + "Memory errors, undefined behaviour and assertions are detected by instrumentation; a CPU limit and a no-progress watchdog detect endless loops.",
    "D02": _E + "Every prefix of streams up to 1500 bytes; section borders and random cuts of larger ones.",
    "D03": _E + "Six kinds of trailing bytes, appended or arriving later.",
    "D04": _E + "Trusts the independent container parser/builder (about 100 lines).",
    "D05": _E + "Malloc family interposed: exact accounting. The bound is 48 MiB + 24 x input + 288 bytes per declared block + 4 x declared metadata.",
    "E01": _E + "As D01, for the reader and the encoder.",
    "E02": _E + "Oracle: the complete mode.",
    "F01": _E + "Trusts the snapshot of the published sources in /verif/ref.",
    "F02": _E + "Trusts the snapshot of the published sources in /verif/ref.",
    "F03": _E + "Trusts the snapshot of the published sources (with the repairs of this work) in /verif/ref.",
    "A01": _E + "Sinks fail at chosen calls in five ways.",
    "A02": _E + "Signature: exact model. Estimate: compared with the measured allocation peak.",
    "A03": _E + "Uninitialised reads are seen by memcheck on small inputs, and by differing results under three heap fills on larger ones.",
    "A04": _E + "Race detection is by happens-before, so it covers more orders than those executed.",
    "G01": _E + "Oracle: the input file and the regular decoder.",
    "G02": _E + "Oracle: sequential execution. ThreadSanitizer on the threads and pool executors.",
    "G03": _E + "As D01, for the group decoder.",
    "G04": _E + "Oracle: counters per task; blocked calls are detected by a watchdog (no step and no CPU for 40 s).",
    "P01": _E + "Oracle: a model that indexes the whole input bit by bit.",
    "P02": _E + "Oracles: package-free Huffman cost, Kraft sum, a decoder of the serialised form written from the format; whole images exchanged with the pinned codec.",
    "P03": _E + "Oracle: an independent encoder written from the format; whole images exchanged with the pinned codec.",
    "T01": _E + "Oracles: the input file and the library's verdict; every process must exit with 0 or 1.",
    "J01": _E + "Oracles: the input file and the native library's verdict.",
    "H01": _E + "Oracle: the one-piece parse, and the input file for valid streams; memory errors by instrumentation.",
    "W01": _E + "The wrapper is compiled for the host (not for WebAssembly), with its heap below 4 GiB because it stores pointers in 32 bits.",
    "N01": _E + "nginx itself is not installed: the functions the module calls are stand-ins written after nginx's implementation, which are trusted. Oracle: a model of content negotiation on well-formed Accept headers (no q=0).",
    "N02": _E + "Apache itself is not installed: the functions the module calls are stand-ins written after APR's implementation, which are trusted. Oracle: a model of content negotiation on well-formed Accept headers (no q=0).",
    "Y01": _E + "The image libraries are not installed: stand-ins record how they are called. Oracle: dbrunsli's own output and the unpatched function.",
    "P04": _E + "Oracles: definitions; whole images with extreme values exchanged with the pinned codec.",
}
NOT_APPLICABLE = []
