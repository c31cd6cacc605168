#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": qtext},
                  why_tests_cant=why, anchors=a))


I = "polytracker/include/taintdag/"
S = "polytracker/src/taintdag/"

prop("C01", "Combining taint labels preserves the exact set of input bytes",
     "Following a taint label down to the input bytes it stands for always yields exactly the set of input bytes "
     "that were combined to make it: the result of combining two labels stands for the set union of what the two "
     "stood for, with nothing lost and nothing added. Combining never changes what an already existing label stands "
     "for, and an untainted operand contributes nothing.",
     ["histories"], "every finite history of taint-source creation and pairwise label combination, in any order, "
     "over any number of sources, with overlapping, adjacent, nested and repeated label ranges",
     "The unit tests combine a dozen hand-picked label pairs; the range/union compression and the bounded duplicate "
     "scan have cases that only appear after particular histories of hundreds of labels.",
     [I + "union.h", I + "labels.h", S + "encoding.cpp", S + "polytracker.cpp"],
     [("range/union compression of a pair of labels", I + "union.h union_::compute, Visitor"),
      ("reuse of recently created identical labels", I + "labels.h duplicate_check"),
      ("label creation", I + "labels.h union_taint, create_source_labels")],
     observe=["label section of the trace file", "return value of the union call"])

prop("C02", "Control-flow marks cover exactly the ancestry of branched-on labels",
     "After any sequence of reads, combinations and branches, a label is marked as affecting control flow if and only "
     "if it is, or is part of, a label some tainted branch depended on; in particular an input byte is marked exactly "
     "when it contributed to a branch. Marking a label never alters what any label stands for.",
     ["histories"], "every interleaving of label creation, label combination and branch events, including deep chains, "
     "wide ranges, shared ancestors and re-marking",
     "Tests mark one or two labels in tiny graphs; the traversal has a fixed-size queue with a heap fallback, early "
     "outs on already marked nodes and a duplicate scan that ignores marks, which only larger histories exercise.",
     [I + "labels.h", I + "labeldeq.h", S + "polytracker.cpp", "polytracker/src/polytracker/polytracker.cpp"],
     [("propagation of the mark to ancestors", I + "labels.h affects_control_flow"),
      ("work queue with array-to-deque migration", I + "labeldeq.h LabelDeq")],
     observe=["label section of the trace file"])

prop("C03", "Taint records encode and decode without loss, in C++ and in Python",
     "Every taint record (an input byte of a source at an offset, a range of labels, or a pair of labels, each with or "
     "without the control-flow mark) over the full width of its fields is recovered unchanged when decoded, by the "
     "runtime and by the Python reader alike, and adding the control-flow mark changes only the mark. Two different "
     "records never share an encoding, and an offset too large to be represented is refused rather than truncated.",
     ["inputs"], "every record with any source index, any 54-bit offset, any pair of 31-bit labels and any mark",
     "Tests encode a handful of values; boundary bit patterns of the 64-bit packing and the agreement of two "
     "independent decoders in two languages are not sampled.",
     [S + "encoding.cpp", I + "encoding.h", I + "taint.h", "polytracker/taint_dag.py", S + "util.cpp"],
     [("64-bit packing", S + "encoding.cpp encode/decode"),
      ("Python decoder", "polytracker/taint_dag.py TDFile.decode_node"),
      ("offset limit", S + "util.cpp Offset::from_off_t")])

prop("C04", "The index of input labels lists exactly the labels of input bytes",
     "At the end of a run the trace's index of input labels contains every label that directly represents an input "
     "byte and no other label, and its recorded size covers every entry without exceeding the space reserved for it. "
     "Setting an entry reports whether it had been set before, ranges behave like setting each entry one by one, and "
     "entries outside the capacity are refused.",
     ["histories", "inputs"], "every history of single and range insertions with any start, length and bucket width, "
     "and every history of reads and combinations",
     "Tests set a few ranges for one bucket type; word-boundary arithmetic depends on start, length and bucket width "
     "jointly.",
     [I + "bitmap_section.h", S + "polytracker.cpp", "polytracker/taint_dag.py"],
     [("atomic bitmap", I + "bitmap_section.h set/set_range/is_set/size"),
      ("index maintenance on source creation", S + "polytracker.cpp create_source_taint, source_taint"),
      ("enumeration", "polytracker/taint_dag.py TDBitmapSection.enumerate_set_bits")])

prop("C05", "Trace-file sections are aligned, disjoint, in bounds and exactly sized",
     "For any combination of sections, every section lies inside the trace file at an offset meeting its alignment, "
     "overlaps neither the header nor another section, and the header lists each section's tag, alignment and offset "
     "and, once the trace is closed, exactly the number of bytes used. Creating a trace stores nothing beyond what is "
     "recorded in it: memory that was not explicitly written is left untouched.",
     ["configurations", "inputs"], "every list of sections with any sizes and alignments, and any amount of data in each",
     "Tests instantiate two or three layouts whose sizes happen to keep every section aligned.",
     [I + "outputfile.h", I + "section.h", I + "storage.h", I + "bitmap_section.h"],
     [("section allocation", I + "outputfile.h do_allocation, required_allocation_size"),
      ("size write-back at close", I + "outputfile.h ~OutputFile")])

prop("C06", "Everything recorded in a trace is read back identically",
     "Reading a finished trace with the Python library returns exactly what was recorded: every source with its name, "
     "descriptor and size, every label record, every output byte entry, every function name and every function event, "
     "in recording order and with the same indices. This holds for any names (any valid UTF-8, any length the format "
     "allows, repeated names) and any numeric values of the stored fields.",
     ["histories", "inputs"], "every sequence of recording operations",
     "The reader and writer are separate implementations in two languages and the repository's tests that join them "
     "need an instrumented program; none runs here.",
     ["polytracker/taint_dag.py", I + "string_table.h", I + "taint_source.h", I + "sink.h", I + "fnmapping.h",
      I + "fntrace.h", I + "outputfile.h"],
     [("file and section readers", "polytracker/taint_dag.py TDFile and TD*Section"),
      ("string table", I + "string_table.h add_string"),
      ("source table", I + "taint_source.h add_source")])

prop("C07", "The control-flow log replays to the true call stacks",
     "Reading the control-flow log back yields the recorded enter, leave and tainted-branch events in order, with "
     "every function id and label value intact and with the call stack that was really active at each event. Calls "
     "that were unwound without a recorded leave are closed with leave events before the next event of an outer "
     "function and at the end of the log, and an id-to-name table only translates ids.",
     ["histories"], "every well-nested call history (leaves and branches belong to functions on the stack) with tainted branches, with any subset of leave events missing, "
     "and any 32-bit function ids and labels",
     "The one cflog test needs an instrumented binary and covers a single short trace; multi-byte ids, unwinding and "
     "draining are history-dependent.",
     [I + "control_flow_log.h", "polytracker/taint_dag.py", S + "polytracker.cpp", "polytracker/src/polytracker/polytracker.cpp"],
     [("variable-length encoding", I + "control_flow_log.h varint_encode, function_event, tainted_control_flow"),
      ("replay", "polytracker/taint_dag.py TDControlFlowLogSection.__iter__, _align_callstack, _decode_varint")])

prop("C08", "Intercepted reads label exactly the bytes delivered, with their true offset",
     "When an intercepted input call (file, stream, memory map, socket or pipe) delivers bytes from a tracked source, "
     "each delivered byte is labelled as precisely the source and offset it came from, whatever mix of calls, seeks, "
     "short reads, reopened descriptors and partial buffers preceded it. No other memory changes its label, failed or "
     "empty reads label nothing, and bytes delivered from untracked descriptors end up unlabelled.",
     ["histories", "inputs"], "every sequence of open/seek/read/close operations through any of the intercepted calls on files, streams and sockets, with any sizes (plain receives, no peeking)",
     "No existing test calls the interception layer: the Python end-to-end tests need the instrumenting compiler.",
     ["polytracker/src/taint_sources/taint_sources.cpp", S + "polytracker.cpp", S + "util.cpp", I + "taint_source.h",
      I + "stream_offset.h"],
     [("read-style wrappers", "polytracker/src/taint_sources/taint_sources.cpp"),
      ("label creation for a read", S + "polytracker.cpp source_taint, create_source_taint"),
      ("stream offsets", I + "stream_offset.h"), ("fd to source mapping", I + "taint_source.h mapping_idx")])

prop("C09", "Intercepted writes log exactly the tainted bytes, at their true offset",
     "Every tainted byte that an intercepted output call actually wrote to a tracked destination is logged exactly "
     "once with that destination, the offset at which the byte landed and the byte's label; untainted bytes, bytes "
     "that were not written and writes to untracked descriptors are not logged. On destinations without a position the offset is the number of bytes previously written there by intercepted calls.",
     ["histories", "inputs"], "every sequence of open/seek/write operations through any intercepted output call, with "
     "any sizes, byte values and taint pattern",
     "No existing test calls the output wrappers.",
     ["polytracker/src/taint_sources/write_taints.cpp", S + "polytracker.cpp", I + "sink.h", S + "util.cpp"],
     [("write-style wrappers", "polytracker/src/taint_sources/write_taints.cpp"),
      ("sink logging", S + "polytracker.cpp taint_sink")])

prop("C10", "Interception does not change what the program's I/O calls do",
     "An intercepted I/O call has the same effect as the plain library call: same return value, same error code on "
     "failure, same buffer contents, same file position, same file contents and same permissions of created files, and "
     "its return value carries taint only where it is data read from a tracked source.",
     ["histories", "inputs"], "every sequence of intercepted I/O calls with valid and invalid arguments",
     "No existing test compares an intercepted call with the native one.",
     ["polytracker/src/taint_sources/taint_sources.cpp", "polytracker/src/taint_sources/write_taints.cpp",
      "polytracker/src/taint_sources/memory_taints.cpp"],
     [("open-style wrappers", "polytracker/src/taint_sources/taint_sources.cpp impl_open, __dfsw_openat, impl_fopen"),
      ("read/write wrappers", "polytracker/src/taint_sources/*.cpp")])

prop("C11", "Copying functions move taint together with the bytes",
     "When a program copies, fills, concatenates, duplicates, reallocates or formats memory through the intercepted "
     "library functions, the resulting memory holds the same bytes as the plain function produces and each copied byte "
     "carries exactly the label of the byte it was copied from, while every byte outside the destination keeps its "
     "label. Bytes the call invents carry no input's taint.",
     ["inputs", "histories"], "every sequence of copying calls over buffers with any contents, overlap, sizes and labels (for formatting: the directives the wrapper supports)",
     "The runtime's unit tests cover only generic sanitizer helpers, never a label-propagating wrapper.",
     ["polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp", "polytracker/src/compiler-rt/lib/dfsan/dfsan.cpp",
      "polytracker/src/taint_sources/string_taints.cpp", "polytracker/src/taint_sources/memory_taints.cpp"],
     [("copy wrappers", "polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp"),
      ("strcat/realloc wrappers", "polytracker/src/taint_sources/{string,memory}_taints.cpp"),
      ("shadow memory", "polytracker/src/compiler-rt/lib/dfsan/dfsan.cpp dfsan_set_label, dfsan_read_label")])

prop("C12", "Comparing, searching and number-parsing calls keep results and provenance",
     "Intercepted comparison, search, length and number-parsing functions return a result equivalent to the plain "
     "function's (same sign, pointer or value), and, with strict data dependencies off as the project's containers configure it, the result's label stands for exactly the bytes the answer was read from: for comparisons and searches every byte up to and including the one that decided, plus the labels of the arguments the result is derived from; for number parsing the characters consumed.",
     ["inputs"], "all strings and memory blocks over all byte values, with any labels, lengths, bases and limits",
     "No existing test calls these wrappers; byte values above 127 and limits of zero are corner cases of the "
     "hand-written loops.",
     ["polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp", "polytracker/src/compiler-rt/lib/dfsan/dfsan.cpp"],
     [("comparison/search/parse wrappers", "polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp")])

prop("C13", "The environment selects exactly the requested taint sources and sinks",
     "Which of standard input, standard output, standard error and the program arguments are tracked is exactly what the documented environment variables ask for (the value 1 enables), and the trace is written to the requested path; argument bytes "
     "are labelled in order as their own sources, terminators excluded, and everything not requested is untracked.",
     ["configurations", "inputs"], "every combination of set, unset and non-enabling values of the environment "
     "variables and every argument vector",
     "Tests never start the runtime with different environments.",
     ["polytracker/src/polytracker/main.cpp", "polytracker/src/taint_sources/argv.cpp", S + "polytracker.cpp"],
     [("settings", "polytracker/src/polytracker/main.cpp polytracker_parse_env, set_defaults, sink_streams, stdin_source"),
      ("argv tainting", "polytracker/src/taint_sources/argv.cpp taint_argv")])

prop("C14", "Every orderly termination leaves a complete, readable trace",
     "Whenever the program ends by returning from main, by calling exit (also from nested calls, other threads' data "
     "or exit handlers) or by failing an assertion, the trace file is complete: the reader sees everything that was "
     "recorded before the end, with consistent section sizes. Events before start-up are ignored: they neither crash the program nor change what it does.",
     ["crash_points", "histories"], "every point of a recording history at which the program ends in one of these ways",
     "Tests never terminate a program at generated points and read the trace back.",
     ["polytracker/src/polytracker/main.cpp", "polytracker/src/taint_sources/taint_sources.cpp",
      "polytracker/src/polytracker/polytracker.cpp", I + "outputfile.h"],
     [("finalisation", "polytracker/src/polytracker/main.cpp polytracker_end, taint_start"),
      ("assert hook", "polytracker/src/taint_sources/taint_sources.cpp __dfsw___assert_fail")])

prop("C15", "Concurrent recording loses, duplicates and tears nothing",
     "When several threads record at the same time, every entry each thread recorded is present in the trace exactly "
     "once and intact, each thread's entries keep their order, labels handed to different threads are never the same "
     "label for different data, the bytes of one read get consecutive labels, and concurrently registered function "
     "names keep one index each.",
     ["schedules", "histories"], "every schedule of any number of threads creating sources, combining labels, logging "
     "outputs, functions and control-flow events, and setting index entries",
     "Unit tests of the sections are single threaded.",
     [I + "section.h", I + "bitmap_section.h", I + "stream_offset.h", S + "fnmapping.cpp", I + "labels.h"],
     [("per-section lock held while writing", I + "section.h SectionBase::write, WriteCtx"),
      ("atomic bitmap update", I + "bitmap_section.h set_bits, update_buckets_used"),
      ("function map mutex", S + "fnmapping.cpp add_mapping")])

prop("C16", "Full tables refuse further entries without corrupting anything",
     "When a table of the trace is full, the attempt to add another entry is refused or ends the program with an error; "
     "it never writes outside that table's space, never changes entries already recorded, and never reports success or "
     "attributes data to a different source or function.",
     ["histories", "inputs"], "every history that reaches or crosses a capacity limit of sources, strings, functions, "
     "labels, outputs or logs",
     "Tests fill one section of one size; wrap-around, exact fits and failures that involve two tables are not covered.",
     [I + "section.h", I + "string_table.h", I + "taint_source.h", S + "fnmapping.cpp", I + "labels.h", I + "sink.h",
      I + "control_flow_log.h", S + "polytracker.cpp"],
     [("bounds check of section writes", I + "section.h SectionBase::write"),
      ("error exit", S + "error.cpp")])

prop("C17", "The input-to-output mapping is exactly the recorded data flow",
     "The mapping from input bytes to output bytes contains a pair exactly when the output byte's label stands for, "
     "directly or through any chain of combinations, that input byte, with both ends named by file and offset. "
     "Listing a trace's inputs and output taints reports each recorded source and output entry faithfully.",
     ["inputs"], "every valid trace: any label graph with shared, nested and deep structure, any sinks, any number of "
     "files, including files opened repeatedly",
     "The repository's mapping tests need an instrumented program and look at two concrete flows.",
     ["polytracker/mapping.py", "polytracker/taint_dag.py", "polytracker/inputs.py"],
     [("graph walk", "polytracker/mapping.py dfs_walk, mapping"),
      ("inputs/outputs", "polytracker/taint_dag.py TDProgramTrace.inputs, output_taints")])

prop("C18", "Reported file cavities are exactly the input bytes that influenced nothing",
     "For every input file, the reported cavities are the maximal, ordered, non-overlapping ranges of exactly those "
     "bytes of the file that neither reached an output nor affected control flow, considering all times the file was "
     "opened together.",
     ["inputs"], "every valid trace with any label graph, marks, sinks and repeated or unsized inputs",
     "The cavity tests need an instrumented program; pruning of already visited and marked labels and the merging of "
     "several opens of one file depend on the shape of the trace.",
     ["polytracker/mapping.py"],
     [("marker sweep and pruning", "polytracker/mapping.py file_cavities"),
      ("marker to ranges", "polytracker/mapping.py marker_to_ranges")])

prop("C19", "The taint forest represents the recorded label graph faithfully",
     "For every label the taint forest gives a node whose ancestry reaches exactly the same input bytes as the "
     "recorded label, with the same source and control-flow mark, at most two parents, and no cycles; enumerating the "
     "forest yields every node once in decreasing label order, and the exported graph has exactly these nodes and edges.",
     ["inputs"], "every valid trace, in any order of node queries",
     "Forest tests need an instrumented program; range nodes are expanded lazily into synthetic nodes whose numbering "
     "depends on query order.",
     ["polytracker/taint_dag.py", "polytracker/taint_forest.py", "polytracker/graphs.py"],
     [("range unfolding", "polytracker/taint_dag.py TDTaintForest.create_node, get_node, nodes"),
      ("graph export", "polytracker/taint_forest.py to_graph")])

prop("C20", "Trace queries report exactly the control-flow-affecting and derived inputs",
     "Asking a trace which input bytes affected control flow returns exactly the input bytes whose labels carry the "
     "control-flow mark, and asking for the input bytes behind a set of taint nodes returns exactly the input bytes "
     "reachable from those nodes, each named by its source and offset.",
     ["inputs"], "every valid trace and every set of its taint nodes",
     "No existing test runs these queries on a trace.",
     ["polytracker/taint_dag.py", "polytracker/tracing.py"],
     [("control-flow query", "polytracker/taint_dag.py inputs_affecting_control_flow, file_offset"),
      ("taint query", "polytracker/tracing.py ProgramTrace.taints")])

prop("C21", "Sets of tainted bytes behave as sets, whatever their order",
     "A set of tainted bytes contains each byte once in order; grouping it into regions yields maximal runs of "
     "consecutive bytes of the same input that together contain exactly the set's bytes; selecting one input keeps "
     "exactly that input's bytes; and combining or searching such sets agrees with plain set and substring operations.",
     ["inputs"], "every collection of byte offsets over several inputs, in any order and with duplicates",
     "No existing test builds such sets.",
     ["polytracker/tracing.py", "polytracker/inputs.py"],
     [("set and region operations", "polytracker/tracing.py Taints, TaintedRegion, ByteOffset")])

prop("C22", "End to end, each output byte maps to exactly the inputs that formed it",
     "For a program that reads tracked inputs, copies and combines bytes, branches on them and writes results, the "
     "analysis of its finished trace reports for each output byte exactly the input bytes that flowed into it and for "
     "each input byte whether it influenced an output or a branch, as a byte-precise reference execution would.",
     ["programs", "histories"], "every program built from the intercepted input, copy, combine, branch and output "
     "operations",
     "The repository's end-to-end tests need the instrumenting compiler and cover a few fixed programs.",
     ["polytracker/src/taint_sources/taint_sources.cpp", "polytracker/src/taint_sources/write_taints.cpp",
      S + "polytracker.cpp", I + "labels.h", "polytracker/mapping.py", "polytracker/taint_dag.py",
      "polytracker/src/compiler-rt/lib/dfsan/dfsan.cpp"],
     [("runtime interface", "polytracker/src/polytracker/polytracker.cpp"),
      ("label union entry point", "polytracker/src/compiler-rt/lib/dfsan/dfsan.cpp __dfsan_union, dfsan_read_label"),
      ("analysis", "polytracker/mapping.py")])

prop("C23", "Function tracing keeps names, indices and event order consistent",
     "Each distinct function name receives one index that never changes during a run and different names never share "
     "an index; the trace lists the names by index and every function entry and exit in the order it happened with "
     "the index of the right function.",
     ["histories"], "every sequence of function entries and exits over any names, including empty, long, non-ASCII, "
     "prefix-related and repeated ones",
     "Tests log a couple of short names.",
     [S + "fnmapping.cpp", S + "fntrace.cpp", I + "fnmapping.h", I + "fntrace.h", "polytracker/taint_dag.py",
      "polytracker/src/polytracker/polytracker.cpp"],
     [("name to index map", S + "fnmapping.cpp add_mapping"), ("event log", S + "fntrace.cpp log_fn_event")])

prop("C24", "Grammar parsing accepts exactly the language and reproduces its input",
     "Matching a sentence against a grammar succeeds exactly when the grammar derives the sentence, and the parse tree "
     "of a successful match spells the sentence using only productions of the grammar; simplifying a grammar does not "
     "change the sentences it derives.",
     ["inputs"], "every small context-free grammar without empty rules or useless productions (with recursion, alternatives, "
     "ambiguity and productions sharing the same rules; for trees: no production derives just itself) and every short "
     "non-empty sentence",
     "The grammar tests parse a few sentences with two fixed grammars.",
     ["polytracker/grammars.py"],
     [("Earley parser", "polytracker/grammars.py EarleyParser, EarleyState"),
      ("simplification", "polytracker/grammars.py Grammar.simplify")])

prop("C25", "Bounded cache and ordered set agree with their abstract models",
     "The least-recently-used cache never holds more than its maximum number of entries, always returns the value last stored for a key it still holds and evicts the least recently used key first, where storing, looking up, testing for and enumerating a key all use it; the ordered set behaves as a set "
     "that iterates in insertion order.",
     ["histories"], "every sequence of operations over any keys and any cache size",
     "The cache test performs one fixed sequence.",
     ["polytracker/cache.py"],
     [("LRU bookkeeping", "polytracker/cache.py LRUCache"), ("ordered set", "polytracker/cache.py OrderedSet")])

prop("C26", "Graph analyses agree with their definitions",
     "On any directed graph the helper analyses return what they are defined to return: roots are the nodes without "
     "predecessors, depth is the shortest distance from a root (for graphs that have one), the dominator forest links each node to its immediate dominator with respect to each root that reaches it, "
     "ancestors and descendants are those connected by a directed path, contracting unambiguous chains preserves "
     "reachability, and a drawing shows exactly the selected nodes and the edges between them.",
     ["inputs"], "every small directed graph with any labels, including disconnected and cyclic ones where defined",
     "No existing test covers the graph helpers.",
     ["polytracker/graphs.py"],
     [("graph helpers", "polytracker/graphs.py DiGraph, DAG")])

B = "polytracker/src/passes/"
prop("C27", "Instrumenting a program does not change what it does",
     "A program instrumented by PolyTracker, by the compiler passes in any combination the tools offer and with any optimisation "
     "in between, exits with the same status and writes the same output as the original program on the same input, whether or "
     "not its data is tainted. The build commands produce one instrumented program per requested target, containing exactly "
     "the instrumentation asked for (taint tracking, function tracing, control-flow log) and honouring the ignore lists.",
     ["inputs"], "every well-defined program over integer, floating point, vector, aggregate and memory operations, calls, "
     "loops, switches, varied main signatures and ways of reading its input; every set of targets and flags",
     "The tests that run here execute no instrumented program; the integration tests run a few fixed C programs.",
     [B + "DataFlowSanitizer.cpp", B + "taint_tracking.cpp", B + "tainted_control_flow.cpp", B + "function_tracing.cpp",
      B + "remove_fn_attr.cpp", "polytracker/build.py"],
     [("instrumentation", B), ("build commands", "polytracker/build.py InstrumentTargets")])

prop("C28", "Instrumented programs track exactly the data flow of their operations",
     "When an instrumented program runs, the trace says for every output byte exactly the input bytes it was computed from: "
     "through arithmetic, conversions, comparisons, selections, vectors and aggregates, function calls, pointers and memory, and "
     "through the library functions PolyTracker intercepts, which are all routed to their taint-tracking versions. Values that do "
     "not depend on input carry no taint.",
     ["inputs"], "every well-defined program over the operations of C27 (without atomics, which carry no taint by design), under the "
     "propagation rules of the configured DataFlowSanitizer: a loaded value also depends on the address it was loaded from, a "
     "stored one only on the value, a selected value also on the condition, one label per vector or aggregate",
     "Instruction-by-instruction propagation has no unit test; the integration tests compare a few outputs of fixed programs.",
     [B + "DataFlowSanitizer.cpp", B + "taint_tracking.cpp", "polytracker/custom_abi/dfsan_abilist.txt",
      "polytracker/src/taint_sources/taint_sources.cpp", "polytracker/src/taint_sources/write_taints.cpp",
      "polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp"],
     [("propagation", B + "DataFlowSanitizer.cpp DFSanVisitor"), ("routing", "polytracker/custom_abi/dfsan_abilist.txt")])

prop("C29", "Instrumented programs log their control flow exactly",
     "The control-flow log of an instrumented program lists, in order, every function entered and left and every branch, switch, "
     "selection and address computation that depended on input, with the function it happened in and the input it depended on; "
     "the function trace lists the same entries and exits; functionid.json names the functions; and the input bytes marked as "
     "affecting control flow are exactly those that reached a branch condition or address. Functions on ignore lists are "
     "left out of the function trace and the marks.",
     ["inputs"], "every well-defined program over the operations of C27, with any function names, nesting of calls and loops, and "
     "ends by returning or exiting; selections and address computations on vectors are not logged",
     "The log is only checked for a handful of fixed programs by the integration tests, which do not run here.",
     [B + "tainted_control_flow.cpp", B + "taint_tracking.cpp", B + "function_tracing.cpp", "polytracker/src/polytracker/polytracker.cpp"],
     [("control-flow log", B + "tainted_control_flow.cpp"), ("function trace", B + "function_tracing.cpp"),
      ("marks", B + "taint_tracking.cpp")])

prop("C30", "Navigating a trace reconstructs the calls and blocks that ran",
     "From the events of a trace (function entries, basic block entries, returns, other events, in any number of threads, possibly "
     "cut short), navigation gives exactly the execution: the caller and entry block of every call; the calls, blocks and return of "
     "every invocation, in order; the next and previous control-flow event, the next (tainted) block of the function, the function a "
     "block calls, the block a return goes back to; how often a block was entered before in the same invocation; the bytes a block or "
     "invocation touched; the control-flow and call graphs; and which input bytes were unused, read out of order or sought back to. "
     "Every navigation ends.",
     ["inputs", "histories"], "every call tree (recursion, calls without blocks, loops), every interleaving of threads, every point at which the "
     "trace is cut, every sequence of input accesses; over any implementation of the abstract trace classes",
     "tracing.py is only exercised by tests on small fixed traces, or not at all since the current trace format implements few of its classes.",
     ["polytracker/tracing.py", "polytracker/inputs.py"],
     [("events", "polytracker/tracing.py ControlFlowEvent, BasicBlockEntry, FunctionEntry, FunctionReturn"),
      ("invocations", "polytracker/tracing.py FunctionInvocation"), ("graphs and input properties", "polytracker/tracing.py ProgramTrace")])

prop("C31", "A parse tree or grammar extracted from a trace reproduces the traced input",
     "The parse tree extracted from the trace of a parser spells exactly the input that was parsed, every byte once and in order, with "
     "correct offsets at every node, each node of a call or block spanning only bytes within those it touched, and siblings in execution "
     "order. It still does after copying and simplifying. The grammar extracted from the tree or directly from traces, simplified or not, "
     "accepts the input. Generic trees traverse, count, copy, convert and print their nodes faithfully.",
     ["inputs"], "every trace of a parser that reads its input from front to back looking at most one byte ahead, with any nesting of calls, "
     "recursion and unread bytes; every tree, including deep ones",
     "The tests extract grammars from integration traces only, which do not run here.",
     ["polytracker/parsing.py", "polytracker/grammars.py"],
     [("extraction", "polytracker/parsing.py trace_to_non_generalized_tree, NonGeneralizedParseTree"),
      ("grammar", "polytracker/grammars.py parse_tree_to_grammar, extract"), ("trees", "polytracker/parsing.py ParseTree")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
