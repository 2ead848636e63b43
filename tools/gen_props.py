#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept next to DESIGN.md)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CAS="src/cas/"; FW="src/framework/"

p("F01", "Feature structures return exactly the values stored in them",
  "After any sequence of operations on a CAS, reading a feature of a feature structure returns exactly the value last stored into that feature (every primitive type over its full range incl. NaN bit classes and infinities, any Unicode string, references incl. null), or the type's default (0, 0.0, false, null string, null reference) if nothing was stored since creation. Storing a value changes no other feature, array, list or feature structure. An access that the type system forbids (feature not defined on the type, wrong value kind, value of an incompatible reference type, string not allowed by a string subtype) is rejected with a framework exception and changes nothing.",
  ["inputs", "histories"],
  "all type systems (inheritance, all range types, string subtypes), all interleavings of create/store/read over many feature structures, long enough to force every heap to grow several times",
  "tests store a handful of constants in a few feature structures, never beyond the first heap page, never with a reference model of the whole CAS",
  [CAS+"featurestructure.cpp", CAS+"lowlevel_fsheap.cpp", CAS+"uima/lowlevel_internal_heap.hpp", CAS+"uima/internal_fsvalue_accessors.hpp"],
  [("cell layout computed from feature offsets", CAS+"lowlevel_typesystem.cpp"), ("typed heaps + accessors", CAS+"uima/lowlevel_fsheap.hpp"), ("range and introduction checks", CAS+"featurestructure.cpp")],
  ["FeatureStructure get*/set*", "CAS::createFS"])

p("F02", "Arrays behave as fixed-size sequences; bulk copies respect bounds",
  "Every array feature structure (FS, string, boolean, byte, short, int, long, float, double) has the size it was created with, initially holds default elements, and each element reads back the last value stored in it without influencing other elements or objects. An index outside the array, and any bulk copy in or out whose source or destination range does not fit, is rejected with a framework exception without touching memory or elements outside the requested range; an in-range bulk copy copies exactly the requested elements. (Bulk copies of FS and string arrays, which the library declares as not implemented, are rejected with a framework exception.)",
  ["inputs", "histories"],
  "all element types, sizes 0..large, all (start,end,offset) combinations at and around the bounds, interleaved with other allocations",
  "the primitive-type test copies one full array per type at offset 0",
  [CAS+"arrayfs.cpp", CAS+"uima/arrayfs.hpp", CAS+"lowlevel_fsheap.cpp"],
  [("bounds check in element access", CAS+"arrayfs.cpp"), ("bulk copy checks", CAS+"arrayfs.cpp"), ("array header: type, size", CAS+"lowlevel_fsheap.cpp")],
  ["*ArrayFS::get/set/size/copyToArray/copyFromArray/toArray"])

p("F03", "Linked-list feature structures behave as sequences",
  "The FS, integer, float and string list types behave as sequences under adding at the front, adding at the end, inserting, removing, head/tail inspection, membership tests, length and iteration: after any history the list contains exactly the elements the history implies, in order, and other lists that do not share nodes are unaffected. Operations that have no meaning (head or tail of an empty list, position out of range) are rejected with a framework exception and leave the list unchanged.",
  ["inputs", "histories"],
  "all operation sequences over several lists of the four kinds",
  "tests only build short lists once and print them",
  [CAS+"listfs.cpp", CAS+"uima/listfs.hpp"],
  [("node surgery over head/tail features", CAS+"listfs.cpp")],
  ["ListFS API"])

p("T01", "Type systems: inheritance, lookup and definition rules are consistent",
  "For every type system that can be defined, the subsumption relation is exactly the reflexive-transitive closure of the declared parent relation, a type has exactly the features declared by it and by its ancestors, every declared type and feature can be found under its name, and enumeration of types, subtypes and features is complete and free of duplicates. Illegal definitions (duplicate or conflicting names, missing or sealed parents, unknown ranges, supertype cycles, changes after commit, type priorities that contradict accepted ones) are rejected and leave the type system unchanged; the committed type order is total and honours every accepted priority.",
  ["inputs", "histories"],
  "all type trees and feature declarations, in every declaration order, legal and illegal",
  "tests use a few fixed type systems",
  [CAS+"lowlevel_typesystem.cpp", CAS+"typesystem.cpp", CAS+"uima/typesystem.hpp"],
  [("createType/createFeature checks", CAS+"lowlevel_typesystem.cpp"), ("subsumption bit vectors and approp tables computed on commit", CAS+"lowlevel_typesystem.cpp")],
  ["TypeSystem/Type/Feature API"])

p("I01", "Indexes contain exactly the feature structures added and not removed",
  "At any time every index over a type enumerates exactly the feature structures of that type and its subtypes that were added to that view and not removed since: with bag and sorted semantics every added one appears (as often as it was added), with set semantics an added one is kept unless an equal one of its type is already in the index. Adding, removing or reindexing a feature structure affects exactly that feature structure, in that view only, and size reports the number of elements enumerated.",
  ["histories", "inputs"],
  "all add/remove histories over many feature structures with heavily colliding keys, several index kinds and key combinations, subtype hierarchies, several views",
  "tests add a few annotations once, and never check membership after removals among equal keys",
  [CAS+"lowlevel_indexrepository.cpp", CAS+"lowlevel_internal_indexes.cpp", CAS+"lowlevel_index.cpp", CAS+"fsindexrepository.cpp"],
  [("per-type single indexes combined into composite indexes", CAS+"lowlevel_internal_indexes.cpp"), ("add/remove dispatch to every index of the type", CAS+"lowlevel_indexrepository.cpp")],
  ["FSIndexRepository::add/remove", "FSIndex::size/iterator/find/contains"])

p("I02", "Index iterators enumerate in index order and navigate consistently",
  "Sorted indexes enumerate in the order defined by their keys, directions and type priorities (annotation index: begin ascending, end descending, then type priority). An iterator stepped forward or backward, moved to the first or last element, cloned, or moved to a feature structure visits exactly the sequence of the index: backward is the reverse of forward, and moving to a feature structure positions on that feature structure if the index contains it, and otherwise, for sorted indexes, on the first element that is not less than it (if there is none, the iterator becomes invalid or stays where it was). Finding and containment agree with that order.",
  ["histories", "inputs"],
  "all index contents (colliding keys, several subtypes), key definitions, type-priority lists and all interleavings of iterator moves",
  "iterator tests walk one fixed document in one direction",
  [CAS+"lowlevel_internal_indexes.cpp", CAS+"uima/lowlevel_internal_indexes.hpp", CAS+"lowlevel_indexcomparator.cpp", CAS+"fsiterator.cpp", CAS+"lowlevel_indexdefinition.cpp"],
  [("comparator over keys, direction, priority order", CAS+"lowlevel_indexcomparator.cpp"), ("merged composite cache", CAS+"lowlevel_internal_indexes.cpp")],
  ["FSIterator", "ANIndex", "ANIterator"])

p("I03", "Subiterators, unambiguous and filtered iterators yield exactly their subset",
  "A subiterator over an annotation yields exactly the annotations that the underlying index orders after it and that start within its span, an unambiguous iterator or subiterator yields exactly the greedy left-to-right choice of non-overlapping annotations, and a filtered iterator yields exactly the elements satisfying the filter condition. Each yields them in index order, forward and (where it can move backward) backward alike, and never more or fewer.",
  ["inputs", "histories"],
  "all annotation layouts (nested, crossing, empty, duplicate spans), all filters over int/float/string/existence/containment and boolean combinations",
  "tests compare counts on one document",
  [CAS+"lowlevel_internal_indexes.cpp", CAS+"uima/lowlevel_internal_indexes.hpp", CAS+"fsindex.cpp", CAS+"fsfilterbuilder.cpp", CAS+"uima/lowlevel_fsfilter.hpp"],
  [("subiterator bounds", CAS+"uima/lowlevel_internal_indexes.hpp"), ("filter evaluation", CAS+"fsfilterbuilder.cpp")],
  ["ANIndex::subIterator/unambigousIterator", "FSIndex::filteredIterator"])

p("V01", "Views and Sofas are isolated and unambiguously addressable",
  "Each subject of analysis has a unique name and at most one view; creating, looking up and enumerating views and subjects always agree with the creation history, and creating a second view of the same name is rejected. Document text, language, document annotation and indexed feature structures of one view never show up in another, annotations know the subject of the view that created them, and covered text is exactly the text span of their own view.",
  ["histories", "inputs"],
  "all histories of creating views/sofas (by name, initial view, lookup by sofa), setting data, adding annotations, resetting",
  "tests create two or three sofas in one fixed order",
  [CAS+"cas.cpp", CAS+"featurestructure.cpp", CAS+"internal_casimpl.cpp"],
  [("view map and sofa index", CAS+"cas.cpp"), ("per-view index repository", CAS+"cas.cpp")],
  ["CAS::createView/getView/createSofa/getSofa/getSofaIterator", "AnnotationFS"])

p("V02", "Sofa data round-trips through every access path",
  "Whatever was set as the data of a subject of analysis (local text, local array of any element type, remote URI) is what every later access returns: the text, the array, the URI, the mime type, and the byte stream, read in pieces of any size, with seek and size consistent. Data can be set only once, and reading never changes it.",
  ["inputs", "histories"],
  "all texts and array kinds/lengths, all sequences of read/seek calls with all buffer sizes, remote files",
  "the sofa test reads one array of each kind once",
  [CAS+"sofastream.cpp", CAS+"uima/sofastream.hpp", CAS+"featurestructure.cpp", CAS+"cas.cpp"],
  [("SofaDataStream factory and local/remote streams", CAS+"sofastream.cpp")],
  ["SofaFS::set*/get*", "SofaDataStream::open/read/seek/getSize"])

p("R01", "A reset CAS is indistinguishable from a new one",
  "After a CAS has been reset (or returned to and taken from a pool), nothing from its earlier contents is observable: no feature structures, index entries, views, subjects, text or strings, and any later sequence of operations gives exactly the results, values and serialized bytes it gives on a freshly created CAS. A pool hands out each CAS to one holder at a time and refuses when all are in use.",
  ["histories"],
  "all pairs of (earlier history, later history), with several reset cycles and pool sizes",
  "tests reset a CAS between files but only check that nothing crashes",
  [CAS+"cas.cpp", CAS+"lowlevel_fsheap.cpp", CAS+"lowlevel_indexrepository.cpp", FW+"caspool.cpp"],
  [("CAS::reset clears heaps, repositories and views", CAS+"cas.cpp"), ("free list", FW+"caspool.cpp")],
  ["CAS::reset", "CASPool::getCAS/releaseCAS"])

p("X01", "XMI serialization round-trips every CAS",
  "Serializing any CAS to XMI always produces well-formed XML that, read back into a CAS of the same type system, yields an equal CAS: the same subjects with their data, the same feature structures reachable from the indexes with equal values and the same sharing and cycles, and the same index contents per view. Strings of XML characters, numbers of every type, arrays, lists, empty arrays and references of every kind keep their exact value. (By the format, arrays and lists held by features that do not allow multiple references are written inside their owner, so each such feature reads back its own copy, null string elements inside arrays and lists read back as empty, and feature structures reachable neither from an index nor from a subject are not written.)",
  ["inputs", "configurations"],
  "all type systems (namespaces, inheritance, multiple-reference flags) and all CAS contents expressible in XML 1.0 text",
  "tests round-trip two sample documents and compare only counts",
  [CAS+"xmiwriter.cpp", CAS+"xmideserializer_handler.cpp", CAS+"xmideserializer.cpp", CAS+"xmlwriter.cpp"],
  [("reachability from indexes, id assignment", CAS+"xmiwriter.cpp"), ("value parsing and deferred reference fix-up", CAS+"xmideserializer_handler.cpp")],
  ["XmiWriter::write", "XmiDeserializer::deserialize"])

p("X02", "XMI data the type system does not know is preserved, not lost or invented",
  "Lenient reading accepts elements and features that are not in the target type system, leaves every known part exactly as a strict read of the known part would, and writing the CAS again with the same shared data reproduces the unknown elements, features, their values and their references unchanged under unchanged identifiers. Strict reading of the same document is rejected with a framework exception.",
  ["inputs", "configurations"],
  "all documents over a larger type system read with every smaller one",
  "one fixed partial type system is tested",
  [CAS+"uima/xmishareddata.hpp", CAS+"xmideserializer_handler.cpp", CAS+"xmiwriter.cpp"],
  [("out-of-typesystem element store", CAS+"uima/xmishareddata.hpp"), ("id maps", CAS+"uima/xmishareddata.hpp")],
  ["XmiDeserializer::deserialize(lenient, sharedData)", "XmiWriter::write with sharedData"])

p("X03", "XCAS serialization round-trips every CAS",
  "Serializing any CAS to XCAS always produces well-formed XML that, read back into a CAS of the same type system, yields an equal CAS: the same subjects with their data, the same feature structures with exactly equal values and the same sharing and cycles, and the same index contents per view. Strings of XML characters keep their exact value. (Null string elements of arrays read back as empty.)",
  ["inputs", "configurations"],
  "all type systems and all CAS contents expressible in XML 1.0 text",
  "tests round-trip two sample documents and compare only counts",
  [CAS+"xmlwriter.cpp", CAS+"xcasdeserializer_handler.cpp", CAS+"xcasdeserializer.cpp"],
  [("reachability and id assignment", CAS+"xmlwriter.cpp"), ("SAX state machine and fix-up", CAS+"xcasdeserializer_handler.cpp")],
  ["XCASWriter::write", "XCASDeserializer::deserialize"])

p("B01", "Binary CAS exchange is lossless",
  "A CAS serialized to the binary exchange formats (one-piece blob, and separate arrays used by the Java bridge) and deserialized into a CAS with the same type system is equal to the original: all feature structures, values of every primitive width, strings, subjects and per-view index contents, also when the receiving side's byte order differs and whatever the receiving CAS contained before. Serializing is deterministic, never exceeds the size announced beforehand, and leaves the CAS unchanged. (A feature structure that was added to an index several times is in the index once after the exchange.)",
  ["inputs", "histories"],
  "all CAS contents, receiving CASes with arbitrary earlier content, native and byte-swapped blobs",
  "one CAS is round-tripped in native order; 64-bit values are never checked across byte orders",
  [CAS+"internal_casserializer.cpp", CAS+"internal_casdeserializer.cpp", CAS+"internal_serializedcas.cpp"],
  [("section-wise copy of heaps and index lists", CAS+"internal_casserializer.cpp"), ("swap and rebuild", CAS+"internal_casdeserializer.cpp")],
  ["CASSerializer::getBlob/serialize", "CASDeserializer::deserializeBlob/deserialize"])

p("P01", "Malformed CAS documents are rejected cleanly",
  "For every byte sequence offered as an XMI or XCAS document, reading either succeeds or ends with a framework exception; it never crashes, corrupts memory, hangs, or escapes with any other exception (given the memory the document asks for). A CAS read successfully can be walked through the API and written again without crashing. In both cases the receiving CAS can afterwards be reset and used like a new one.",
  ["inputs", "fault_sequences"],
  "all byte strings, in particular mutations of valid documents: dangling and wrong-typed ids, bad numbers, missing or duplicate attributes, truncated and ill-nested XML",
  "only well-formed sample documents plus one unknown-type case are tested",
  [CAS+"xmideserializer_handler.cpp", CAS+"xcasdeserializer_handler.cpp", CAS+"xmideserializer.cpp", CAS+"xcasdeserializer.cpp", CAS+"xmlerror_handler.cpp"],
  [("SAX error handler and handler state checks", CAS+"xmlerror_handler.cpp")],
  ["XmiDeserializer/XCASDeserializer::deserialize"])

p("D01", "Component descriptors are parsed faithfully",
  "For every valid component descriptor, the parsed description exposes exactly what the document states: metadata, delegates and flow, type systems with all features, indexes with keys in order, type priorities, capabilities, parameter declarations and values of every kind, sofa mappings and imports resolved relative to the importing document. A description written out or converted to a type system and read again is equivalent.",
  ["inputs", "configurations"],
  "all valid descriptors: primitive and aggregate, inline and imported parts, nested imports, groups, every parameter type",
  "a few fixed descriptors are loaded",
  [FW+"taespecifierbuilder.cpp", FW+"taespecifier.cpp", FW+"taemetadata.cpp", FW+"typesystemdescription.cpp", FW+"casdefinition.cpp", CAS+"xmltypesystemreader.cpp", CAS+"xmltypesystemwriter.cpp"],
  [("DOM walk building description objects", FW+"taespecifierbuilder.cpp"), ("merge into type system", FW+"casdefinition.cpp")],
  ["XMLParser/AnalysisEngineDescription getters", "TypeSystem from descriptor", "XMLTypeSystemWriter"])

p("D02", "Invalid descriptors are rejected cleanly",
  "For every byte sequence offered as a component or type-system descriptor, parsing and engine creation either succeed or report a framework error (error information set, or framework exception) with nothing created; they never crash, corrupt memory, hang or escape with another exception. In particular duplicate or undeclared parameters, values of the wrong type, unknown delegates in a flow, unknown types or features in output capabilities, indexes or priorities, missing imports and missing annotator libraries are all reported.",
  ["inputs", "fault_sequences", "configurations"],
  "all byte strings, in particular single-fault mutations of valid descriptors",
  "only a few invalid descriptors are tested",
  [FW+"taespecifierbuilder.cpp", FW+"taespecifier.cpp", FW+"engine.cpp", FW+"casdefinition.cpp", FW+"internal_capability_container.cpp"],
  [("validate after parse", FW+"taespecifier.cpp"), ("factory error handling", FW+"engine.cpp")],
  ["Framework::createAnalysisEngine", "XMLParser"])

p("C01", "Configuration parameters resolve to the documented value",
  "The value an annotator reads for a parameter is the one the descriptors prescribe: an overriding value of the outermost enclosing aggregate if one exists, else the component's own; for grouped parameters according to the declared search strategy (none, default fallback, language fallback). Values have exactly the declared type and multiplicity, values assigned at runtime are visible to exactly the components the declaration binds them to, and undeclared parameters or type mismatches are rejected.",
  ["configurations", "inputs", "histories"],
  "all declarations (types, multiplicity, groups, strategies), nestings, overrides, values and runtime assignments",
  "one annotator reads a few parameters",
  [FW+"annotator_context.cpp", FW+"config_param.cpp", FW+"taespecifier.cpp", FW+"taemetadata.cpp", FW+"uima/annotator_context.hpp"],
  [("parent-first lookup with override mapping", FW+"annotator_context.cpp"), ("group search strategy", FW+"taemetadata.cpp")],
  ["AnnotatorContext::extractValue/assignValue/isParameterDefined"])

p("A01", "Aggregates run their delegates in flow order with the right capabilities",
  "Processing a CAS with a fixed-flow aggregate calls every delegate exactly once per CAS, in the declared order, nested aggregates expanded in place, each seeing everything earlier ones produced. With a capability-language flow a delegate is called exactly when it declares an output that is requested and not yet produced, for the language of the document (territory-less and unspecified languages matching as documented), or declares no outputs, and each called delegate receives exactly the requested outputs it is responsible for.",
  ["configurations", "histories", "inputs"],
  "all flows and nestings, capability sets, document languages and result specifications, many CASes in a row",
  "two fixed aggregates are run",
  [FW+"annotator_mgr.cpp", FW+"internal_aggregate_engine.cpp", FW+"internal_capability_container.cpp", FW+"uima/result_specification.hpp", FW+"internal_primitive_engine.cpp"],
  [("flow loop with result specification bookkeeping", FW+"annotator_mgr.cpp"), ("language to output map", FW+"internal_capability_container.cpp")],
  ["annotator callbacks (trace events)"])

p("A02", "Sofa names are mapped through every level of aggregation",
  "A component that accesses a subject of analysis by its own local name reaches exactly the subject the enclosing aggregates map that name to, through all nesting levels; unmapped names mean themselves, and components without sofa declarations get the view the default name maps to. The mapping is per component instance and independent of processing order.",
  ["configurations", "histories"],
  "all mapping tables (renames, swaps, chains, shared targets) over nested aggregates",
  "one aggregate with one level of mapping is tested",
  [FW+"annotator_context.cpp", FW+"uima/annotator_context.hpp", FW+"annotator_mgr.cpp", CAS+"cas.cpp"],
  [("composed mapping tables", FW+"annotator_context.cpp"), ("lookup with current component", CAS+"cas.cpp")],
  ["CAS::getView/createView inside annotators", "AnnotatorContext::mapToSofaID"])

p("A03", "CAS multipliers deliver every produced CAS exactly once",
  "Iterating the output of a CAS multiplier yields every CAS it produces exactly once, in production order, each with exactly the content the multiplier gave it and nothing from earlier uses of the same pooled CAS, for any number of input CASes. At most as many output CASes as were announced are in use at a time; asking for more is refused with a framework exception, and releasing one makes it available again.",
  ["histories", "configurations"],
  "all produce/consume/release interleavings and pool sizes",
  "one multiplier over one input is tested",
  [FW+"casiterator.cpp", FW+"caspool.cpp", FW+"annotator_context.cpp", FW+"internal_engine_base.cpp"],
  [("CASIterator delegating to the annotator", FW+"casiterator.cpp"), ("pool", FW+"caspool.cpp")],
  ["AnalysisEngine::processAndOutputNewCASes", "CASIterator"])

p("E01", "Annotator life cycle is exact and failures are reported, contained and final",
  "Each annotator is initialized once, gets the type system before the first process call, receives process, reconfigure, batch-complete and collection-complete exactly when the engine is asked to, and is destroyed exactly once, in reverse order within aggregates; calls outside that life cycle are refused with an error. An error code or framework exception raised by an annotator at any point reaches the caller as a failure, releases everything that was initialized when initialization fails, and leaves an initialized engine usable for the next CAS.",
  ["fault_sequences", "histories"],
  "all call sequences on the engine and all points at which any delegate fails (initialize, type system init, process, reconfigure, batch/collection complete, destroy; by code or by exception)",
  "tests never let an annotator fail inside an aggregate",
  [FW+"engine.cpp", FW+"internal_engine_base.cpp", FW+"internal_primitive_engine.cpp", FW+"annotator.cpp", FW+"annotator_mgr.cpp"],
  [("engine state machine", FW+"internal_engine_base.cpp"), ("launchInit / launchDeInit", FW+"annotator_mgr.cpp")],
  ["annotator callbacks (trace events)", "AnalysisEngine return codes"])

p("M01", "No memory is leaked, misused or left behind by complete life cycles",
  "Creating, using and deleting any number of framework objects in the documented way (type systems, CASes, views, iterators, filters, engines incl. failed creations, pools, serializers incl. failed reads) releases all memory they acquired, so that repeating a workload does not grow memory; and no such sequence makes the framework read or write memory it does not own or rely on undefined behaviour.",
  ["histories", "fault_sequences"],
  "all create/use/destroy sequences, including failing ones, repeated any number of times",
  "the tests run without sanitizers and exit before leaks could matter",
  [FW+"engine.cpp", CAS+"cas.cpp", FW+"casdefinition.cpp", FW+"taespecifierbuilder.cpp", CAS+"xmideserializer_handler.cpp", FW+"annotator_context.cpp"],
  [("ownership flags and destructors", FW+"engine.cpp")],
  ["allocator (AddressSanitizer, LeakSanitizer, UBSan)"])

p("H01", "Engines in different threads do not interfere",
  "Analysis engines and CASes that are each used by one thread at a time can be created, used (processing, serializing, deserializing, iterating) and destroyed concurrently with others without data races, deadlocks or lost work, and every thread obtains exactly the results of a sequential run.",
  ["schedules", "inputs"],
  "all interleavings of threads running independent engine life cycles and CAS workloads, after the framework was set up once",
  "the tests are single-threaded",
  [FW+"resmgr.cpp", FW+"log.cpp", FW+"engine.cpp", CAS+"internal_typeshortcuts.cpp", FW+"annotator.cpp", FW+"exceptions.cpp"],
  [("process-wide singleton initialized once", FW+"resmgr.cpp"), ("per-engine state", FW+"internal_engine_base.cpp")],
  ["memory accesses (ThreadSanitizer)", "per-thread result digests"])

p("S01", "String references and character conversions agree with Unicode semantics",
  "Non-owning string references compare, order, search, slice and convert exactly like the Unicode strings with the same contents, for every content including surrogates and empty strings. Conversions to and from external encodings preserve every representable character, never overrun or truncate at buffer boundaries, and report unknown encodings as a framework error.",
  ["inputs"],
  "all string pairs and offsets, all texts times all encodings times all buffer sizes",
  "no test covers the string reference class or large conversions",
  [FW+"unistrref.cpp", FW+"uima/unistrref.hpp", FW+"cp2ucnvrt.cpp", FW+"u2cpcnvrt.cpp", FW+"uima/ccsid.hpp", FW+"strtools.cpp"],
  [("UTF-16 views", FW+"unistrref.cpp"), ("chunked converters", FW+"cp2ucnvrt.cpp")],
  ["UnicodeStringRef API", "CodePage2UnicodeConverter/Unicode2CodePageConverter"])

p("L01", "Language identifiers normalize, compare and match consistently",
  "Every two-letter language code, optionally followed by a hyphen or underscore and a two-letter territory, in any letter case, denotes a valid language with its normalized text form and parts; the empty code means unspecified and everything else is invalid. Equality, ordering, the numeric form and matching are consistent: matching is reflexive and symmetric, unspecified matches everything, a language matches its own territories and nothing matches a different language, and converting through the numeric or text form gives the same language.",
  ["inputs"],
  "all strings up to length 8 over letters, separators and other characters; exhaustive over all well-formed codes",
  "a handful of codes is tested",
  [FW+"language.cpp", FW+"uima/language.hpp"],
  [("init normalizes", FW+"language.cpp")],
  ["Language API"])

p("J01", "The Java bridge exchanges CASes and errors faithfully",
  "A CAS passed from Java to native code and back through the bridge contains exactly what was passed in plus exactly what the native annotator added, for all feature values, strings, arrays and indexes; segments of a CAS multiplier and requested result specifications cross it the same way. Errors of the native side arrive as Java exceptions with the framework's error code and message and never as crashes, and any number of engines can be created, configured, used and destroyed through the bridge.",
  ["inputs", "histories", "fault_sequences"],
  "all CAS contents and call sequences through the native interface, incl. wrong call order and failing annotators",
  "the bridge is compiled but no test loads it",
  ["src/jni/jni.cpp", "src/jni/jni_utils.cpp", "src/jni/jni_string.cpp", CAS+"internal_casserializer.cpp", CAS+"internal_casdeserializer.cpp", CAS+"internal_serializedcas.cpp"],
  [("array copies between JVM and heaps", "src/jni/jni.cpp"), ("exception translation", "src/jni/jni_utils.cpp")],
  ["org.apache.uima.uimacpp.UimacppEngine natives called through a JNIEnv"])

p("N01", "Diagnostics carry the right information and never fail themselves",
  "An exception or error information object reports exactly the error id, message with all parameters inserted, context and severity it was created with, also after copying, assigning and rethrowing. A message sent to a logger reaches the log sink exactly once, with its severity and origin, exactly when its severity passes the configured level, whatever characters it contains.",
  ["inputs", "configurations"],
  "all message ids, parameter lists, severities, log levels and texts",
  "no test inspects messages or log output",
  [FW+"exceptions.cpp", FW+"log.cpp", FW+"resmgr.cpp", FW+"uima/msg.h"],
  [("message table and parameter insertion", FW+"exceptions.cpp"), ("level filter and sinks", FW+"log.cpp")],
  ["ErrorMessage/ErrorInfo/Exception getters", "log file sink"])

p("O01", "The command-line driver processes every input once and writes faithful output",
  "Running the driver on a file or directory processes every input document exactly once (text, XCAS or XMI input as selected), writes one output per input that reads back as the processed CAS, and reports per-document failures without skipping the remaining documents. Wrong arguments, missing inputs and unusable descriptors end with a message and a failure status instead of a crash.",
  ["inputs", "configurations", "fault_sequences"],
  "all option combinations, document sets (incl. empty and non-ASCII documents and encodings) and faulty inputs",
  "tests run a few fixed command lines",
  ["src/utils/runAECpp.cpp", FW+"ftools.cpp", FW+"consoleui.cpp", FW+"uima/dirwalk.hpp"],
  [("directory walk and per-file processing", "src/utils/runAECpp.cpp")],
  ["process exit status, output files"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
