#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  The table below is the source of the file."""
import json, os
R = []
def P(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    R.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
I = "polytracker/include/taintdag/"; S = "polytracker/src/taintdag/"; T = "polytracker/src/taint_sources/"
RT = "polytracker/src/polytracker/"; D = "polytracker/src/compiler-rt/lib/dfsan/"

P("C01", "Trace reader and trace writer agree on every record layout and tag",
  "Every field of every record the runtime writes to a trace file (file header, section header, source, sink, function, event) is read back by the Python reader at the same byte offset, with the same width and the same signedness, and with the same total record size. Every section kind the runtime writes carries a tag that the reader dispatches to the class that interprets exactly that kind of section, and every numeric constant both sides use (event kinds, invalid-size and invalid-descriptor markers, string length prefix) is the same.",
  ["inputs", "configurations"], "for every trace file the runtime can write",
  "No test in the stable set reads a trace with the Python reader; the C++ tests only read back through the same C++ structs, so a consistent change on one side passes.",
  [I+"outputfile.h", I+"taint_source.h", I+"sink.h", I+"fnmapping.h", I+"fntrace.h", I+"string_table.h", "polytracker/taint_dag.py"],
  [("record structs and section tags", I+"outputfile.h"), ("ctypes mirrors and tag dispatch", "polytracker/taint_dag.py")], ["the .tdag file", "TDFile"])

P("C02", "Stored taint values decode to exactly the taint that was encoded",
  "Encoding a source, range or union taint and decoding the stored value yields a taint of the same kind with the same source, offset, labels and control-flow mark, in the runtime and in the Python reader alike. This holds for every source index, every offset up to the documented maximum, every pair of labels below the label limit and either state of the control-flow mark.",
  ["inputs"], "for every taint value that fits the documented ranges",
  "The unit tests round-trip a handful of values through the C++ side; none exercises the Python decoder, and large offsets, labels with high bits and marked values are sampled at best.",
  [S+"encoding.cpp", I+"encoding.h", I+"taint.h", "polytracker/taint_dag.py"],
  [("encode/decode", S+"encoding.cpp"), ("decode_node", "polytracker/taint_dag.py")], ["label section entries"])

P("C03", "The union of two taints covers both operands and nothing else",
  "The taint computed for combining two labels covers exactly the labels covered by the two operands: an existing label is returned only when it already covers the other operand, a range is returned only when every label in it comes from an operand, and otherwise the result refers to both operands. No operand contribution is dropped and no unrelated input byte is added, for any pair of operand kinds.",
  ["inputs", "histories"], "for every pair of valid labels and every combination of source, range and union operands",
  "Tests check a few dozen concrete label values; boundary coincidences (adjacent, overlapping, equal ends, nested) are a space of orderings that they sample.",
  [I+"union.h", I+"labels.h"], [("union visitor", I+"union.h")], ["label section entries", "taint of outputs"])

P("C04", "Labels are permanent, and a label is only ever reused for the same taint",
  "Once a label has been handed out its stored meaning never changes, except that its control-flow mark may be switched on; new labels are only ever appended. When combining two labels yields an already existing label instead of a new one, that label's stored taint is the computed union (ignoring the control-flow mark), and a new label's stored value is the computed union.",
  ["histories", "inputs"], "for every sequence of label creations, unions and control-flow marks",
  "Tests build short label tables; the reuse scan only engages with particular neighbouring entries, and a wrong reuse corrupts provenance without any error.",
  [I+"labels.h", I+"section.h"], [("union_taint/duplicate_check", I+"labels.h")], ["label section"])

P("C05", "Marking a label as affecting control flow marks everything it derives from",
  "When a label influences a branch, that label and every label it is directly or transitively built from (both members of a union, every label of a range including both ends, down to the input bytes) carry the control-flow mark afterwards, and no other label gets marked by it. Marking sets only the control-flow mark of a stored taint and changes no other information, and the pending-work queue used while marking never loses or invents a label however many are pending.",
  ["histories", "inputs"], "for every label table and every label",
  "Tests mark shallow structures; a queue that spills after 31 pending labels, deep ranges and already-marked sub-structures need specific histories.",
  [I+"labels.h", I+"labeldeq.h", S+"encoding.cpp"], [("affects_control_flow worklist", I+"labels.h"), ("LabelDeq", I+"labeldeq.h")], ["control-flow bit of label entries"])

P("C06", "Section memory is handed out exclusively, in bounds and without gaps",
  "Concurrent writers to one trace section never receive overlapping memory: the write position is read and advanced only while the section's lock is held, and the lock stays held for as long as the writer holds its reservation. A reservation that does not fit inside the section is refused and leaves the write position and the lock as they were; a granted one begins exactly at the previous write position, has exactly the requested length and ends inside the section.",
  ["schedules", "inputs", "histories"], "for every interleaving of writers and every requested size, including sizes near the capacity",
  "The tests write from one thread and far below capacity; races and the last-bytes boundary are not reachable by sampling.",
  [I+"section.h"], [("SectionBase::write and its lock", I+"section.h")], ["section contents", "section size"])

P("C07", "A trace record that cannot be stored is never dropped silently",
  "When a label, source, sink, function, event, string or control-flow record cannot be stored because its section is full or its value does not fit, the traced program is stopped with an error (or the failure is returned to a caller that does so). No recording operation returns normally having stored nothing, and no operation uses the result of a failed reservation. Every record number a section can hand out fits the number type the other records refer to it by.",
  ["fault_sequences", "histories"], "for every recording operation and every way its storage can be exhausted",
  "Exhausting a section takes up to billions of records; the tests never reach capacity except for a small string table.",
  [I+"labels.h", I+"sink.h", I+"taint_source.h", I+"string_table.h", I+"control_flow_log.h", S+"fnmapping.cpp", S+"fntrace.cpp", S+"polytracker.cpp"],
  [("error_exit on failed construct/write/add", I+"labels.h")], ["process exit status", "section contents"])

P("C08", "Orderly termination publishes the true size of every section",
  "When an instrumented program ends by returning from main, calling exit, or failing an assertion, the header of the trace file holds, for every section, the number of bytes that section has actually used, and each section's recorded offset, tag and alignment describe where its data really is. Sections never overlap each other or the header and all lie inside the file.",
  ["crash_points", "histories", "configurations"], "for every way of terminating in an orderly manner and every section list",
  "Only a manual build with the LLVM toolchain runs instrumented programs; unit tests inspect two-section files only.",
  [I+"outputfile.h", I+"storage.h", RT+"main.cpp", T+"taint_sources.cpp"], [("OutputFile destructor", I+"outputfile.h"), ("exit handler and assertion wrapper", RT+"main.cpp")], ["section headers of the .tdag file"])

P("C09", "Every input call taints exactly the bytes it delivered, at their true offsets",
  "For every wrapped input function (read, pread, recv, recvfrom, fread, fgets, getdelim, getc family, mmap), on success the bytes delivered to the caller's buffer (or the returned character) are registered as read from the descriptor or stream that was passed, starting at the stream position in effect before the call or the explicit offset argument. A call that delivers nothing (error, end of file) registers nothing, and the number of bytes registered equals the number delivered.",
  ["inputs", "programs", "fault_sequences"], "for every wrapped input function, argument values and outcome of the underlying call",
  "No stable test links or calls the input wrappers at all; they are only exercised through an instrumented build that needs the network and LLVM 12.",
  [T+"taint_sources.cpp", S+"util.cpp", I+"util.h"], [("input wrappers", T+"taint_sources.cpp"), ("length/offset helpers", S+"util.cpp")], ["source labels created", "shadow labels of the buffer"])

P("C10", "Every output call records exactly the bytes written, at their true offsets",
  "For every wrapped output function (write, send, fwrite, putc, fputc), on success the bytes actually written are recorded as reaching the descriptor or stream that was passed, starting at the stream position in effect before the call, with the label of the written data. A call that writes nothing records nothing, and the recorded length equals the number of bytes written.",
  ["inputs", "programs", "fault_sequences"], "for every wrapped output function, argument values and outcome of the underlying call",
  "No stable test links or calls the output wrappers; short writes and failures are not reachable by the tests that exist.",
  [T+"write_taints.cpp", S+"util.cpp"], [("output wrappers", T+"write_taints.cpp")], ["sink section"])

P("C11", "Exactly the successfully opened files and connections become tracked",
  "Opening a file, accepting an IPv4 connection or connecting an IPv4 socket registers the resulting descriptor under the path or address of that very call when, and only when, the underlying call succeeded. The descriptor registered is the one the program receives (for accept the new socket, for streams the stream's own descriptor), and each successful call registers exactly once, under the name as passed (never shortened or rewritten). The size recorded for an opened file is that file's size or is marked unknown.",
  ["inputs", "programs", "fault_sequences"], "for every wrapped open/accept/connect call and outcome",
  "The wrappers are not linked into any stable test.",
  [T+"taint_sources.cpp"], [("open/accept/connect wrappers", T+"taint_sources.cpp")], ["sources section"])

P("C12", "Each tainted input byte gets its own consecutive source label",
  "Registering n bytes read from a tracked source at offset o creates n new labels, consecutive and in order, where the i-th one records that source and offset o+i; the i-th byte of the buffer gets the i-th label and no other byte's label changes. Exactly those labels are added to the index of input labels, and an untracked descriptor creates nothing.",
  ["inputs", "histories"], "for every descriptor, buffer, offset and length",
  "Tests check a few lengths; the per-byte correspondence must hold for every length and for descriptors reused many times.",
  [S+"polytracker.cpp", I+"labels.h", I+"taint_source.h"], [("create_source_taint / create_source_labels", S+"polytracker.cpp")], ["label section", "source label index", "shadow labels"])

P("C13", "Each tainted byte written to a tracked sink yields one exact sink record",
  "For every byte of a write to a tracked descriptor, a sink record is stored if and only if that byte is tainted, and it carries that byte's label, the position of that byte in the output (start offset plus index) and the entry of that descriptor. Nothing is recorded for untracked descriptors, and the latest opened entry for a descriptor number is the one used.",
  ["inputs", "histories"], "for every buffer, label pattern, offset and length",
  "Tests stub the label lookup and check a few bytes; mixed tainted/untainted patterns and stream outputs are not covered.",
  [S+"polytracker.cpp", I+"sink.h", I+"taint_source.h"], [("taint_sink", S+"polytracker.cpp")], ["sink section"])

P("C14", "The input-label bitmap holds exactly the bits that were set",
  "Setting one bit or a range of bits makes exactly those bits read as set, leaves every other bit as it was, and concurrent setters never undo each other's bits. Requests beyond the capacity stop the program, and the size reported covers every bucket that contains a set bit.",
  ["inputs", "schedules"], "for every bit position and range, aligned or not, and every interleaving of setters",
  "Tests use single-threaded, small ranges; lost updates and every alignment/length combination are beyond sampling.",
  [I+"bitmap_section.h"], [("set/set_range/set_bits", I+"bitmap_section.h")], ["source label index section"])

P("C15", "Control-flow log entries are written and parsed by one grammar",
  "Every enter, leave and tainted-branch event is stored as one contiguous entry consisting of an event kind, the function number and (for tainted branches only) the label, each number in the variable-length encoding that the Python reader decodes back to the same value. Entries are never truncated or overrun for any function number or label, and the reader yields events of the corresponding kinds, with the right function and label, in the order stored.",
  ["inputs", "histories"], "for every 32-bit function number and label, and every sequence of events",
  "The encoder tests use a few values; no stable test runs the Python parser on runtime output.",
  [I+"control_flow_log.h", "polytracker/taint_dag.py"], [("varint_encode / function_event / tainted_control_flow", I+"control_flow_log.h"), ("TDControlFlowLogSection", "polytracker/taint_dag.py")], ["control flow log section"])

P("C16", "Instrumentation callbacks are inert before start-up and forward faithfully after",
  "Before tracing has been started every instrumentation callback returns without touching the trace state; once started, each callback forwards its arguments unchanged to the operation it stands for, and does so only for tainted labels where the callback concerns a label. Tracing counts as started only after the trace state is fully constructed, and a callback that wraps a program value returns that value unchanged.",
  ["schedules", "programs", "histories"], "for every callback, argument value and point in the program's life, including constructors that run before start-up",
  "The callbacks are never linked into a stable test.",
  [RT+"polytracker.cpp", RT+"main.cpp"], [("init flag guards", RT+"polytracker.cpp")], ["callback return values", "trace contents"])

P("C17", "Environment settings control exactly what they document",
  "The trace is written to the path named by POLYDB, or to polytracker.tdag when it is unset or empty; standard input, output and error are tracked exactly when their variables (POLYTRACKER_STDIN_SOURCE, POLYTRACKER_STDOUT_SINK, POLYTRACKER_STDERR_SINK) are 1; command-line arguments are taint sources exactly when POLYTRACKER_TAINT_ARGV starts with 1. When enabled, every argument contributes all its bytes under its own name.",
  ["configurations"], "for every combination of the environment variables",
  "The start-up code is not linked into any stable test.",
  [RT+"main.cpp", T+"argv.cpp"], [("polytracker_parse_env / set_defaults / sink_streams / stdin_source", RT+"main.cpp")], ["trace path", "sources section"])

P("C18", "Function numbers are stable, unique per name, and events refer to them",
  "The first entry into a function of a given name registers it once, and every later entry with the same name yields the same number, also when several threads enter concurrently; different names never share a number and the number identifies the entry that holds that name. Every function entry and exit appends exactly one event of the matching kind carrying that number.",
  ["schedules", "histories", "inputs"], "for every set of function names and every interleaving of entries",
  "Tests register a few names from one thread.",
  [S+"fnmapping.cpp", S+"fntrace.cpp", S+"polytracker.cpp"], [("Functions::add_mapping under its lock", S+"fnmapping.cpp")], ["functions section", "events section"])

P("C19", "Stored names read back byte for byte",
  "A stored name is reserved with room for its length prefix and every byte, its prefix holds its exact length and its bytes follow unmodified, and reading the returned offset in the runtime or in the Python reader gives back the same bytes. This holds for any bytes, whether or not they form valid text. Names too long for the length prefix are rejected, and iterating the table visits every stored name in order.",
  ["inputs", "histories"], "for every name up to the maximum length and every sequence of insertions",
  "Tests store short names; the length boundary, odd lengths and the Python reader are sampled or absent.",
  [I+"string_table.h", "polytracker/taint_dag.py"], [("add_string / iterator", I+"string_table.h"), ("read_string", "polytracker/taint_dag.py")], ["string table section"])

P("C20", "Label algebra of the sanitizer runtime: zero is neutral and nothing is lost",
  "Combining an untainted value with a label yields that label, combining a label with itself yields it, and combining two different labels yields the union label of exactly those two. Reading the label of a memory region combines the labels of all its bytes, and setting a label on a region assigns it to every byte of that region and to no other.",
  ["inputs"], "for every pair of labels and every address range",
  "The sanitizer label runtime is not linked into any stable test.",
  [D+"dfsan.cpp"], [("__dfsan_union, union_load, set_label, read_label", D+"dfsan.cpp")], ["shadow memory"])

P("C21", "Every custom function wrapper follows the calling convention of its caller",
  "Each library function that the instrumentation redirects to a wrapper has a wrapper, and that wrapper takes the function's own parameters, then one label per parameter, then the variadic label array if the function is variadic, then the return-label slot if it returns a value, in this order and with compatible widths. On every path that returns, a wrapper for a value-returning function has set the return label.",
  ["programs"], "for every function listed for redirection and every path through its wrapper",
  "A mismatch only shows when an instrumented program calls that function; no stable test does.",
  ["polytracker/custom_abi/dfsan_abilist.txt", T+"taint_sources.cpp", T+"write_taints.cpp", T+"memory_taints.cpp", T+"string_taints.cpp", D+"dfsan_custom.cpp", RT+"polytracker.cpp"],
  [("wrapper signatures", T+"taint_sources.cpp"), ("ABI list", "polytracker/src/compiler-rt")], ["link and call behaviour of instrumented programs"])

P("C22", "The input-to-output mapping reports every contribution and only those",
  "For every sink record, the mapping links to it exactly the input bytes reachable from its label: through both members of every union, every label of every range including both ends, each label visited once, and stopping at input bytes. Every sink record is considered, and links carry the path and offset of the input byte and of the output byte.",
  ["inputs"], "for every trace file",
  "No stable test runs the mapping code.",
  ["polytracker/mapping.py"], [("dfs_walk / mapping", "polytracker/mapping.py")], ["polytracker mapping output"])

P("C23", "Reported cavities are exactly the unused input bytes",
  "A byte of an input that was read is reported as part of a cavity if and only if it neither affected control flow nor contributed to any output, and every offset within the known size of an input is classified; cavities are disjoint, in order, half-open and maximal. A file opened several times is merged so that a byte used through any of its openings is not reported.",
  ["inputs"], "for every trace file, including inputs of unknown size, grown inputs and inputs opened more than once",
  "No stable test runs the cavity code.",
  ["polytracker/mapping.py"], [("file_cavities / marker_to_ranges", "polytracker/mapping.py")], ["polytracker cavities output"])

P("C24", "The taint forest preserves the ancestry of every label",
  "In the taint forest built from a trace, an input label has no parents and names its input, a union label has exactly its two members as parents, and a range label's ancestry contains every label of the range including both ends and nothing else. Every node carries its label's control-flow mark, and enumeration visits every label of the trace.",
  ["inputs"], "for every trace file",
  "No stable test builds a forest from a trace.",
  ["polytracker/taint_dag.py", "polytracker/taint_forest.py"], [("TDTaintForest.create_node", "polytracker/taint_dag.py")], ["taint forest graph"])

P("C25", "The trace reader enumerates every stored record exactly once",
  "Each section of a trace is interpreted over exactly the byte range given by its header, and enumerating sources, sinks, functions, events, labels or set bits yields every stored record exactly once, in order, with none skipped or invented. Inputs are listed once per source that contributed labels, and input bytes reported as affecting control flow are exactly the marked input labels.",
  ["inputs"], "for every trace file, including empty sections",
  "No stable test opens a trace file with the reader.",
  ["polytracker/taint_dag.py"], [("section classes and TDFile", "polytracker/taint_dag.py")], ["TDFile API"])

P("C26", "Offsets are the true position when known and a running count otherwise",
  "A position reported by the operating system is used unchanged as the offset; when no position is available the offset is the total number of bytes previously transferred in that direction through that source or sink, kept separately per source and per direction and advanced atomically by the length of this transfer. A position larger than can be stored stops the program instead of being truncated.",
  ["inputs", "schedules", "histories"], "for every sequence of reads and writes on seekable and non-seekable descriptors",
  "Tests cover the counter helper alone with a few values, single-threaded.",
  [I+"stream_offset.h", S+"util.cpp", S+"polytracker.cpp"], [("StreamOffset::increase / Offset::from_off_t", I+"stream_offset.h")], ["source and sink offsets"])

P("C27", "Wrappers are transparent: same call, same arguments, same result",
  "Every wrapper performs the underlying library call exactly once, passes the program's arguments through unchanged and returns the underlying result unchanged, whatever tracing does. Wrappers of functions that never return do not return, and any work a wrapper does before the underlying call cannot prevent it except by stopping the program with an error.",
  ["programs", "inputs"], "for every wrapped function, argument values and outcome",
  "The wrappers are not linked into any stable test; a wrapper that alters the program's behaviour is only seen in an instrumented program.",
  [T+"taint_sources.cpp", T+"write_taints.cpp", T+"memory_taints.cpp", T+"string_taints.cpp"], [("wrapper bodies", T+"taint_sources.cpp")], ["behaviour of the instrumented program"])

P("C28", "Memory and string wrappers move labels with the bytes they move",
  "After a copying library function (memcpy, memmove, strcpy, strncpy, strdup, strcat, realloc, calloc, memset and their siblings) every destination byte carries the label of the byte it was copied from, or the label of the fill value, and destination bytes that were not written keep theirs. The number of labels moved equals the number of bytes moved.",
  ["inputs", "programs"], "for every argument value, overlap and length",
  "The sanitizer's custom wrappers are not linked into any stable test.",
  [D+"dfsan_custom.cpp", T+"memory_taints.cpp", T+"string_taints.cpp"], [("copy wrappers", D+"dfsan_custom.cpp")], ["shadow memory"])

P("C29", "Instrumented programs call the tracking callbacks at every relevant site",
  "The instrumentation passes insert a tracking callback at every function entry and exit and at every conditional branch of the selected functions, and never alter what the program computes.",
  ["programs"], "for every program being instrumented",
  "The passes are not compiled here.", ["polytracker/src/passes/function_tracing.cpp", "polytracker/src/passes/tainted_control_flow.cpp", "polytracker/src/passes/taint_tracking.cpp"],
  [("LLVM passes", "polytracker/src/passes")])

P("C30", "Grammars extracted from a trace accept the traced input",
  "A grammar extracted from a recorded execution derives the very input that was traced, and simplification preserves the derived language.",
  ["inputs", "histories"], "for every parse tree extracted from a trace",
  "Tests use a few hand-written trees.", ["polytracker/grammars.py", "polytracker/parsing.py"], [("extraction and simplification", "polytracker/grammars.py")])

P("C31", "Differences between two traces are reported symmetrically and completely",
  "Comparing two recorded executions reports every function, control-flow and taint difference between them, and swapping the two executions swaps the report.",
  ["inputs", "histories"], "for every pair of traces", "No stable test covers comparison.",
  ["polytracker/diffing.py", "polytracker/tracing.py"], [("trace comparison", "polytracker/diffing.py")])

P("C32", "Filling wrappers clear exactly the labels of the memory that was filled",
  "The sanitizer's wrappers of functions that fill the caller's memory (stat, fstat, clock_gettime, gettimeofday, time, ctime_r, localtime_r, getcwd, gethostname, getrlimit, getrusage, getpwuid_r, inet_pton, select, poll, epoll_wait, nanosleep, sigaction, sigemptyset, sigaltstack, sched_getaffinity, pthread_join, socketpair, getsockopt, getsockname, getpeername, recvmsg, recvmmsg and their siblings) call the library function once with the program's arguments and return its result. Exactly the bytes the call filled lose their labels, or take the label of the value they were computed from; an output that is null or was not filled is left alone.",
  ["programs", "inputs"], "for every argument value, null output, outcome and number of entries or bytes",
  "The sanitizer's custom wrappers are not linked into any stable test.",
  [D+"dfsan_custom.cpp"], [("wrappers of functions with output parameters", D+"dfsan_custom.cpp")], ["shadow memory", "behaviour of the instrumented program"])

P("C33", "Comparing and searching wrappers match the C library and label what they read",
  "The wrappers of memcmp, bcmp, strcmp, strncmp, strcasecmp, strncasecmp, strchr, strrchr, memchr, strstr, strpbrk, strlen and of the strto* conversions return what the C library returns for the same arguments (bytes compared as unsigned char, never beyond the limit or the end of a string). Their result carries the labels of exactly the bytes that were examined, or, with strict_data_dependencies set, only of the data the result is made of.",
  ["inputs"], "for every string, length, limit and byte value",
  "The sanitizer's custom wrappers are not linked into any stable test.",
  [D+"dfsan_custom.cpp"], [("comparison, search and conversion wrappers", D+"dfsan_custom.cpp")], ["behaviour of the instrumented program", "labels of results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in R: f.write(json.dumps(r) + "\n")
print(len(R))
