"""property -> module; technique and level note per property; reasons for properties that are not claimed."""
REGISTRY = {"C33": "c33_examine", "C32": "c32_outputs", "C21": "c21_convention", "C28": "c28_moves", "C20": "c20_algebra", "C04": "c04_labels", "C05": "c05_marking", "C17": "c17_settings", "C16": "c16_callbacks", "C26": "c26_offsets", "C14": "c14_bitmap", "C08": "c08_finish", "C01": "c01_layout", "C23": "c23_cavities", "C22": "c22_mapping", "C24": "c24_forest", "C25": "c25_reader", "C19": "c19_strings", "C15": "c15_cflog", "C18": "c18_functions", "C07": "c07_drops", "C06": "c06_section", "C12": "c12_sources", "C13": "c13_sinks", "C02": "c02_encoding", "C03": "c03_union", "C09": "c09_inputs", "C10": "c10_outputs", "C11": "c11_opens", "C27": "c27_transparent"}
_IR = "static analysis of the LLVM IR of the current sources: path-sensitive value-flow/dataflow abstract interpretation (linear terms, zone domain, loop summaries); "
_PY = "static analysis of the Python syntax trees of the current sources: path-sensitive value-flow abstract interpretation (linear terms, loop summaries over a generic iteration); "
_NOTE = "every path of every analysed function is covered abstractly; complete for the listed functions up to the stated assumptions"
TECH = {
 "C32": (_IR + "address, length and label of every label assignment compared with what the library call filled on that path, null outputs and loops over entries included", _NOTE),
 "C33": (_IR + "comparison loops as generic iterations (why they go on, end, and what they return), set of regions combined into the label of the result", _NOTE),
 "C21": (_IR + "type of every wrapper compared with the library prototype (from the system headers) transformed by the redirection convention; must-analysis of the return-label slot over the control-flow graph", "complete over the shipped lists and all wrappers"),
 "C20": (_IR + "value of every label combination, coverage of every label read and store loop, byte ranges of label stores against the requested range", _NOTE),
 "C28": (_IR + "label byte ranges moved by every copying wrapper compared with the application byte ranges moved, per path", _NOTE),
 "C04": (_IR + "provenance of every write to label storage and of every label a union can yield", _NOTE),
 "C05": (_IR + "worklist closure of marking (per label taken out, per member kind) and ring/typestate analysis of its queue", _NOTE),
 "C17": (_IR + "abstract content of every setting string (empty, environment value, literal) on every path of start-up; argument loop", _NOTE),
 "C16": (_IR + "typestate of start-up (flag after construction) and call/argument forwarding of every callback on each side of the flag", _NOTE),
 "C26": (_IR + "provenance of every offset: system position unchanged, or one atomic advance of the count of its own source and direction", _NOTE),
 "C14": (_IR + "bits touched per path compared with the bits requested, in every residue class of position and length; atomicity of every bucket update", _NOTE),
 "C08": (_IR + "file layout evaluated from the constructor, size written per section by the destructor, and typestate of the tracing object on every orderly end", _NOTE),
 "C01": (_IR + "record and header layout of the writer (store offsets, widths, tags) compared with the layout declared by the Python reader (syntax-tree analysis)", _NOTE),
 "C02": (_IR + "bit-provenance round trip of the taint encoding, C++ and Python decoder", _NOTE),
 "C03": (_IR + "interval coverage of the union result, per operand-kind pair", _NOTE),
 "C09": (_IR + "per-wrapper input contract", _NOTE),
 "C10": (_IR + "per-wrapper output contract", _NOTE),
 "C11": (_IR + "registration contract of open/accept/connect wrappers", _NOTE),
 "C06": (_IR + "bounds and exclusivity of every section reservation, mutual exclusion inferred from lock state", _NOTE),
 "C07": (_IR + "typestate of every recorder: on each path the record is stored or the process stops with an error", _NOTE),
 "C12": (_IR + "registration contract of sources: entry content, index returned, lookups", _NOTE),
 "C13": (_IR + "sink entry content and ordering per byte written", _NOTE),
 "C15": (_IR + "byte-level varint round trip of the control-flow log", _NOTE),
 "C18": (_IR + "function table and event entry content, id agreement under lock state", _NOTE),
 "C19": (_IR + "string table layout contract, writer and reader", _NOTE),
 "C22": (_PY + "worklist invariant of the walk, per-sink independence and link content of the mapping", _NOTE),
 "C23": (_PY + "content and length of every marker through creation, growth, marking, merging and conversion to ranges", _NOTE),
 "C24": (_PY + "node content per label kind, induction over the unfolding of ranges, enumeration", _NOTE),
 "C25": (_PY + "section headers, record extents and enumeration bounds of the reader", _NOTE),
 "C27": (_IR + "call/argument/result transparency of every wrapper", _NOTE),
}
NA = {
 "C29": "the instrumentation passes need LLVM 12 headers that are not installed: the code cannot be compiled or type-checked here, and what they insert is a property of the generated program",
 "C30": "that a grammar derives the traced input quantifies over unbounded runtime data structures (parse trees, grammar fixpoints); no static argument in reach bounds it",
 "C31": "completeness of a trace comparison quantifies over pairs of runtime traces; no static argument in reach bounds it",
}
