"""Which workloads and monitors decide which property."""
import os
import build as B

def W(prog, mode, quick, thorough, variant="asan", **kw):
    return dict(prog=prog, mode=mode, quick=quick, thorough=thorough, variant=variant, **kw)

TECH = "runtime monitoring: model-based monitor over randomized operation histories of the real library built with AddressSanitizer and UndefinedBehaviorSanitizer"
NOT_APPLICABLE = {}
MEM = " Every run is also judged by ASan+UBSan."
EXAMPLES = os.path.join(B.REPO, "examples")
TSAN_PLUG = ["p_trace", "ex_SimpleTextSegmenter", "ex_DaveDetector", "ex_SofaExampleAnnotator"]
TSAN_ENV = {"TSAN_OPTIONS": "halt_on_error=0:exitcode=66:history_size=4:second_deadlock_stack=1:ignore_noninstrumented_modules=1"}
# workloads repeated by the growth monitor: program, mode, cases, shards
GROWTH = [("h_fs", "values", 60, 1), ("h_fs", "arrays", 60, 1), ("h_fs", "lists", 60, 1), ("h_idx", "index", 60, 1), ("h_idx", "iter", 60, 1), ("h_idx", "subiter", 60, 1), ("h_ser", "xmi", 80, 1),
          ("h_ser", "xcas", 80, 1), ("h_ser", "oots", 60, 1), ("h_ser", "shared", 60, 1), ("h_ser", "blob", 80, 1), ("h_ser", "sercas", 30, 1), ("h_ser", "pool", 30, 1), ("h_ser", "reset", 60, 1),
          ("h_hostile", "xmi", 160, 4), ("h_hostile", "xcas", 160, 4), ("h_view", "views", 80, 1), ("h_view", "sofadata", 80, 1), ("h_text", "conv", 150, 1), ("h_text", "strref", 150, 1), ("h_text", "lang", 50, 1),
          ("h_ts", "typesystem", 40, 1), ("h_ts", "history", 80, 1), ("h_ts", "illegal", 150, 1), ("h_ts", "xmlts", 60, 1), ("h_desc", "decl", 120, 1), ("h_desc", "schema", 30, 1), ("h_bad", "fault", 320, 2),
          ("h_bad", "mutate", 200, 1), ("h_bad", "badschema", 120, 1), ("h_eng", "life", 400, 2), ("h_eng", "flow", 120, 1), ("h_eng", "sofa", 120, 1), ("h_eng", "conf", 100, 1), ("h_eng", "mult", 60, 1),
          ("h_diag", "msg", 150, 1), ("h_diag", "exc", 150, 1), ("h_diag", "log", 150, 1), ("h_diag", "restart", 24, 1), ("h_jni", "exchange", 24, 2), ("h_jni", "faults", 80, 1), ("h_jni", "misuse", 80, 1), ("h_leak", "tasks", 600, 4), ("h_leak", "extra", 400, 4)]
PROPS = {
 "F01": dict(note="Random type systems and operation histories; after each step a reference model is compared with every feature and element of every object; forbidden accesses must be rejected with a framework exception and change nothing."+MEM, workloads=[W("h_fs", "values", 1600, 60000)], rule="distinct (type, feature values) states of feature structures and arrays compared with the model"),
 "F02": dict(note="Random arrays of all nine kinds, element access and bulk copies with in-range and hostile ranges, compared with a sequence model and with guard bytes around caller buffers."+MEM, workloads=[W("h_fs", "arrays", 1600, 60000)], rule="distinct array contents and distinct (kind, size, range) bulk copies compared with the model"),
 "F03": dict(note="Random histories over several list handles sharing nodes, compared with a node-graph model; includes lists of tens of thousands of elements."+MEM, workloads=[W("h_fs", "lists", 1600, 60000)], rule="distinct list contents compared with the model"),
 "I01": dict(note="Random type systems, index definitions of all kinds and key types, several views; add, remove, re-add and reindex histories compared with a model of every index and subtype view."+MEM, workloads=[W("h_idx", "index", 4000, 150000)], rule="distinct index states (type and position sequences of at least two elements) compared with the model"),
 "I02": dict(note="Every index of random worlds walked by random next/previous/first/last/moveTo/clone/assign/peek sequences and compared with a position model; order checked against an independent comparator."+MEM, workloads=[W("h_idx", "iter", 4000, 150000)], rule="distinct (index, navigation sequence with positions) walks over at least two elements"),
 "I03": dict(note="Subiterators (both kinds), unambiguous and filtered iterators (random filter trees) of random worlds compared, forward and backward and in random walks, with sequences computed from the index sequence."+MEM, workloads=[W("h_idx", "subiter", 4000, 150000)], rule="distinct (iterator, navigation sequence with positions) walks over at least two elements"),
 "X01": dict(note="Random type systems and CASes (all value kinds, views, sofas, shared and cyclic structures, hostile strings) are written and read back by the real code; canonical snapshots of both CASes, two generations, must be equal, writing must change nothing, and with shared data the identifiers must be kept."+MEM, workloads=[W("h_ser", "xmi", 3000, 120000), W("h_ser", "shared", 1500, 60000), W("h_ser", "deepxmi", 8, 240)], rule="distinct canonical CAS snapshots round-tripped (more than three nodes)"),
 "X02": dict(note="Random CASes over a random type system are read (strict, lenient, lenient with shared data) into a CAS of a random smaller type system; the known part must equal the projection of the original, and the rewritten document must keep every identifier and, read with the full type system, equal the original."+MEM, workloads=[W("h_ser", "oots", 3000, 120000)], rule="distinct canonical CAS snapshots (full type system) pushed through a smaller type system"),
 "X03": dict(note="As X01 for the XCAS writer and reader."+MEM, workloads=[W("h_ser", "xcas", 4000, 150000), W("h_ser", "deepxcas", 8, 240)], rule="distinct canonical CAS snapshots round-tripped (more than three nodes)"),
 "B01": dict(note="Random CASes are written as binary blobs (both byte orders, all blob kinds) and as SerializedCAS objects, with and without copied strings and with the source gone, and read into clean and used CASes of equal type systems; canonical snapshots including index membership must be equal, writing must change nothing, equal CASes must give equal bytes, and rebuilt definitions must be equivalent."+MEM, workloads=[W("h_ser", "blob", 2400, 90000), W("h_ser", "sercas", 1200, 50000), W("h_ser", "deepblob", 8, 240)], rule="distinct canonical CAS snapshots round-tripped (more than three nodes)"),
 "V01": dict(note="Random histories of creating, looking up and enumerating views and subjects under hostile names, setting text, language and annotations in several views, index changes, heap growth and resets, compared after every step with a model of every view."+MEM, workloads=[W("h_view", "views", 2400, 90000)], rule="distinct (view name, data, index size) states compared with the model"),
 "V02": dict(note="Data of every kind (text, all array kinds, URIs read by a stream handler plug-in) set through every access path; texts, arrays, URIs, mime types and streams read with random reads, seeks, reopenings and heap growth in between are compared with a byte model, second settings must be rejected, also after a document round trip."+MEM, workloads=[W("h_view", "sofadata", 1600, 60000, build=["p_stream"])], rule="distinct stream sessions (data and position sequences) compared with the byte model"),
 "R01": dict(note="A CAS with a random history (API operations, documents and blobs read, also truncated ones) is reset and compared with a new CAS: empty snapshots, then the same further random operations must give the same outcomes, snapshots, documents and blobs; CAS pools are driven by random get/release sequences against a model."+MEM, workloads=[W("h_ser", "reset", 1600, 60000), W("h_ser", "pool", 1200, 40000)], rule="distinct canonical CAS snapshots built in reused and new CASes and compared"),
 "P01": dict(note="Valid XMI and XCAS documents of random CASes are mutated (bytes, attributes, elements, ids, truncation, other type systems and formats) and read strictly, leniently and with shared data; only framework exceptions may escape, an accepted document's CAS must be walkable and writable, and after a reset a valid document must give exactly what a new CAS gives."+MEM, workloads=[W("h_hostile", "xmi", 1600, 60000), W("h_hostile", "xcas", 1600, 60000)], rule="distinct hostile documents offered to the readers"),
 "L01": dict(note="All 26^2 two-letter and 26^4 language-territory codes (slice per run, all in the thorough tier) in random letter case and hostile strings through every constructor, compared with an independent normalization; every pair of a random set checked for equality, order and matching laws."+MEM, workloads=[W("h_text", "lang", 2028, 20280)], rule="distinct code rows and strings whose language was compared with the model"),
 "S01": dict(note="String references over exact-size heap buffers compared with UnicodeString and naive models for every comparison, search, slice, count and conversion function, with in-range and hostile offsets; texts around internal buffer sizes and unpaired surrogates; converters compared with independent encoders at every capacity, with hostile bytes and unknown encodings."+MEM, workloads=[W("h_text", "strref", 4800, 150000), W("h_text", "conv", 4800, 150000)], rule="distinct string pairs, texts and (text, encoding) combinations compared with the models"),
 "T01": dict(note="Random type trees, string subtypes and feature declarations in random declaration order, loaded through all six routes (aggregate descriptor, XML buffer, UChar buffer, file, description API, parsed description) and through low-level definition histories; every public query (subsumption, subtypes, features, lookups, properties) compared with an independent model of the declarations; single-fault illegal definitions and changes after commit must give a framework exception and leave the type system unchanged; the XML type system writer/reader round trip."+MEM, workloads=[W("h_ts", "typesystem", 1200, 30000), W("h_ts", "illegal", 4000, 100000), W("h_ts", "history", 1600, 60000), W("h_ts", "xmlts", 800, 20000), W("h_ts", "priorities", 2000, 60000), W("h_ts", "pinned", 1, 1)], rule="distinct type systems compared with the model, and distinct illegal definitions"),
 "D01": dict(note="Random valid analysis-engine descriptors (primitive and aggregate, nested and imported by location from several directories, every metadata section, hostile text, comments, CDATA, entities) are parsed through every route, and the whole observable metadata is compared with the generating model; the parsed description is written out (buffer and converted forms), read again and compared again; a second workload runs the same with XML-schema validation active."+MEM, workloads=[W("h_desc", "decl", 1500, 40000), W("h_desc", "schema", 500, 8000)], rule="distinct descriptors whose metadata was compared with the model"),
    "D02": dict(note="Random executable descriptors (trees of trace annotators) get one semantic fault out of 34 kinds or one structural fault out of 9 kinds and are offered through four creation routes: an engine must not be created and a framework error must be reported, with every annotator that was created destroyed again; a fault-free control must be created afterwards in the same process with the right number of annotators. Two further workloads offer token- and byte-level mutations of engine and type-system documents (with and without schema validation); an accepted engine must process."+MEM, workloads=[W("h_bad", "fault", 1600, 40000, build=["p_trace"]), W("h_bad", "mutate", 3200, 100000, build=["p_trace"]), W("h_bad", "badschema", 1200, 30000, build=["p_trace"])], rule="distinct faulty documents offered"),
 "A01": dict(note="Random trees of trace annotators (fixed and capability-language flows, overlapping and empty capabilities per language, nested and repeated delegates) process random documents in random languages and with random result specifications; every call, its order, the result specification it received and the objects it saw are compared with an independent simulation of the flow."+MEM, workloads=[W("h_eng", "flow", 3000, 100000, build=["p_trace"])], rule="distinct call sequences (component, document, result specification) compared with the simulation"),
 "A02": dict(note="Random mapping tables (renames, swaps, chains, shared targets, default names) over nested aggregates; each annotator creates and reads views under its local names, in random processing orders, and the subject it reached is compared with the composition of the tables; the application's own view access before and after processing must not be mapped."+MEM, workloads=[W("h_eng", "sofa", 3000, 100000, build=["p_trace"])], rule="distinct (component, local name, subject) accesses compared with the mapping model"),
 "E01": dict(note="Random engine call sequences (legal and illegal) on primitive and nested aggregate engines with annotators that return errors or throw at random life-cycle points; a recorded event log of every annotator call is checked against the life-cycle automaton, every failure must reach the caller, the engine must stay usable or refuse with an error, and no annotator may be left alive."+MEM, workloads=[W("h_eng", "life", 4000, 120000, build=["p_trace"])], rule="distinct event histories checked against the life-cycle automaton"),
 "A03": dict(note="A scripted CAS multiplier (0 to 4 announced instances, random outputs of random content) is driven through processAndOutputNewCASes with random has-next calls, iterator copies, releases (through other views, twice, foreign), abandoned iterations and failures in process and next; identity, number, order and whole content (canonical snapshots against independently built CASes) of every delivered CAS, emptiness of every pooled CAS, the refusal beyond the announced number and the stability of held CASes are checked."+MEM, workloads=[W("h_eng", "mult", 1600, 60000, build=["p_trace"])], rule="distinct canonical contents of delivered CASes compared with the reference"),
 "C01": dict(note="Random component trees (depth 1-3) with ungrouped or grouped parameters, common parameters, several groups per declaration, default groups, all three search strategies, override restrictions and conflicting declarations; every annotator reads its parameters in initialize, reconfigure and process through all extractor overloads, the application and annotators assign values between; each answer is compared with a reference resolver."+MEM, workloads=[W("h_eng", "conf", 3000, 80000, build=["p_trace"])], rule="distinct (component, group, parameter, value) answers compared with the reference resolver"),
 "N01": dict(note="Messages of every id with parameters through every overload, error information and exceptions of 29 classes through copies, assignments, containers and up to five rethrows, compared field by field and text by text with a model; recorded log sinks and log files compared with the expected entries (levels, origins, streams, last error, concurrent threads, throwing sinks, several framework instances)."+MEM, workloads=[W("h_diag", "msg", 6000, 150000), W("h_diag", "exc", 6000, 150000), W("h_diag", "log", 3000, 80000), W("h_diag", "restart", 400, 6000)], rule="distinct message texts, exceptions and log entries compared with the model"),
 "H01": dict(technique="runtime monitoring: ThreadSanitizer build of library, plug-ins and harness under randomized concurrent task schedules with injected delays, and comparison of every task's result digest with a sequential run", note="Two to five threads run independent pieces of framework work at the same time under ThreadSanitizer: type systems, CASes, iterators and filters, XMI/XCAS/blob/serialized-CAS round trips, hostile documents, whole engine life cycles incl. failing annotators and refused descriptors, CAS pools and multipliers, the example annotators, conversions, error texts, logging; with separate or shared type systems, descriptions and annotator libraries, start barriers and injected delays. The digest of everything a thread observed is compared with a sequential run of the same work; every log message must arrive exactly once. Third-party libraries (ICU, Xerces, APR) are not instrumented.", workloads=[W("h_conc", "conc", 800, 12000, variant="tsan", build=TSAN_PLUG, shards=16, args={"--examples": EXAMPLES}, env=TSAN_ENV, case_limit=120), W("h_conc", "types", 320, 6000, variant="tsan", build=TSAN_PLUG, shards=16, args={"--examples": EXAMPLES}, env=TSAN_ENV, case_limit=120)], rule="distinct result digests of concurrently executed work compared with the sequential digest", require={"overlapping-tasks": 200, "examples": 5, "log-messages": 100}),
 "J01": dict(technique="runtime monitoring: the native methods run under ASan+UBSan against a stand-in Java VM that checks every JNI call (references, array bounds, pending exceptions, frame balance); CAS contents compared across the bridge, errors compared with the C++ interface", note="Random CASes (all value kinds, strings incl. null and unpaired surrogates, arrays, lists, several views) are passed through the native methods into one to five engines with equal or different descriptor type systems, seen by a native annotator, extended by it and read back; segments of multipliers, named views and repeated documents included. Every stage of the annotator fails in four ways and the Java exception is compared with the code and text of the C++ interface; engines are used after errors; call orders are random, incl. before initialization, after a failed one and after destruction. Messages of annotators are compared in the Java logger. The stand-in VM replaces a real one: it hands out exact-size buffers and stale references are caught, but garbage collection timing is not modelled. Two known findings: segments use the descriptor's type system; the requested result specification is ignored.", workloads=[W("h_jni", "exchange", 640, 30000, build=["p_trace"], shards=8), W("h_jni", "faults", 1000, 60000, build=["p_trace"]), W("h_jni", "misuse", 1000, 60000, build=["p_trace"]), W("h_jni", "statics", 300, 10000, build=["p_trace"]), W("h_jni", "pinned", 1, 1, build=["p_trace"])], rule="distinct CAS contents returned through the bridge, fault placements and call orders", require={"java-exceptions": 200, "nodes-exchanged": 5000}),
 "O01": dict(technique="runtime monitoring: the driver executable runs as a separate process under ASan+UBSan (and, with several threads, ThreadSanitizer) in a scratch directory; the event log of a recording annotator, the output files, the messages and the exit status are compared with what the C++ interface makes of the same documents", note="Random command lines (all options in all positions, one file or a directory, one to three runs, one to four threads, random order, delays, log levels) over random text, XCAS and XMI documents: empty, malformed, truncated, of other type systems, with failing annotators of four kinds, segments, named sofas present and absent, unusual file names. Every document must be seen by the annotator as often as requested and no other, in the state the C++ interface gives it, one output per input must hold the processed CAS, failures must be reported and stop nothing else. Wrong arguments, missing or unreadable inputs, unusable descriptors and annotators failing in initialization must end with a message and a failure status.", workloads=[W("h_cli", "runs", 400, 12000, build=["p_rec", "runAECpp"]), W("h_cli", "bad", 800, 24000, build=["p_rec", "runAECpp"]), W("h_cli", "threads", 80, 3000, variant="tsan", build=["p_rec", "runAECpp"], env=TSAN_ENV)], rule="distinct command lines and documents", require={"processes": 800, "documents-processed": 1000, "outputs-compared": 200, "parallel-runs": 50}),
 "M01": dict(technique="runtime monitoring: AddressSanitizer allocation hooks record every block the library obtains while each case is repeated; blocks obtained in every repetition and still held at the end are growth; ASan+UBSan judge every access", note="The random workloads of all other monitors (CASes, iterators, filters, serializers, hostile documents, descriptors, broken descriptors, engine life cycles with failures, pools, multipliers, configuration, streams, diagnostics, whole framework instances) are each run four times with the same seed in one process; memory allocated by library code in each of the last three repetitions and still held afterwards, and file descriptors left open, are violations. Every access is judged by ASan+UBSan.", workloads=[W(p, m, q, q * 30, build=["p_trace", "p_stream", "ex_SimpleTextSegmenter", "ex_DaveDetector", "ex_SofaExampleAnnotator"], shards=n, args={"--growth": "1", "--examples": EXAMPLES}, ASAN_OPTIONS="malloc_context_size=50", case_limit=120) for p, m, q, n in GROWTH], rule="distinct (workload, number and size of allocations) of repeated cases compared for growth", require={"allocations": 1000000, "descriptors-checked": 500}),
}
