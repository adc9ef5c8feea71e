"""Writes /verif/properties.jsonl (the single place where the property texts are edited)"""
import json, os
W = "src/autosar/xml/writer.py"
R = "src/autosar/xml/reader.py"
E = "src/autosar/xml/element.py"
WS = "src/autosar/xml/workspace.py"
D = "src/autosar/xml/document.py"
T = "src/autosar/xml/template.py"
TG = "src/autosar/generator/type_generator.py"
IM = "src/autosar/model/implementation.py"
RF = "src/autosar/xml/reference.py"
EN = "src/autosar/xml/enumeration.py"


def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        anchors["state"] = [{"name": x} for x in state]
    if observe:
        anchors["observe_at"] = observe
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": anchors}


PROPS = [
 p("C01", "An acknowledged ARXML write reads back, after a restart, as the same model",
   "When writing a document to a file has returned without an exception, then after a process restart reading that file, however the operating system splits the writes and reads into pieces, yields a document with the same packages, elements in the same order, attribute values, texts, references and schema version as the one written, also for text and names containing XML markup or non-ASCII characters. "
   "This also holds when the file previously held longer content, or when earlier attempts to write it failed. "
   "Any model the public constructors accept can be written this way on a healthy disk, and holds the values its constructors were given. A text that no XML document can hold is refused with an exception instead of being written. (The XML parser's own limits on nesting depth and text size apply to reading.)",
   ["inputs", "fault_sequences", "histories"],
   "every model built through the public constructors (all packageable element kinds, nested packages, optional attributes present or absent, any text), every supported schema version, every prior content of the target, and every sequence of short reads and writes, interrupted system calls, and earlier failed attempts",
   "the tests write single hand-picked elements to strings under a perfect in-memory stream; they never write a whole document to a disk whose calls come back short or fail, restart, and compare the whole model read back",
   [W, R, D, E],
   [("document writer and its per-element methods", f"{W}: Writer.write_file, Writer._write_document, Writer._write_package and the _write_* methods"),
    ("text and attribute serialisation", f"{W}: _XMLWriter._add_content, _add_inline_text, _attr_to_str, _format_float, _format_number"),
    ("document reader and its per-element methods", f"{R}: Reader.read_file, Reader._read_root, _read_packages and the _read_* methods")],
   ["Document.packages", "Package.elements", "Document.schema_version"], ["bytes on disk after restart", "model returned by the reader"]),

 p("C02", "A write that did not reach the disk completely is always reported",
   "If any step of producing an output file fails (opening, any write, the final flush or close, or the disk filling up), the call that was asked to produce it raises an exception; a call that returns normally has put the complete content on disk. "
   "This holds for single documents, single elements, a workspace's whole set of documents, and the generated type header.",
   ["fault_sequences", "inputs"],
   "every system call on the output file failing with every error kind the call can return, at every position, alone or after short writes, for every output operation",
   "the tests never make a system call fail; buffered output delays a failure to a flush at close, which only happens for a particular combination of document size and failing call",
   [W, WS, TG],
   [("file output", f"{W}: Writer.write_file, Writer.write_file_elem, _XMLWriter._open, _close"),
    ("document set output", f"{WS}: Workspace.write_documents"),
    ("header output", f"{TG}: TypeGenerator.write_type_header")],
   None, ["exception or return of the call", "bytes on disk afterwards"]),

 p("C03", "Writing a workspace's documents can be repeated and retried",
   "Writing the configured documents of a workspace any number of times, also after an attempt that failed part-way through a disk fault, and also after further elements and packages were added, elements changed, or the document root was set anew in between, produces exactly the files a fresh workspace with the same content would produce: each configured file holds its packages at their paths, each split file holds its element and the elements its suffixes select. "
   "Nothing from an earlier attempt is duplicated, lost, or makes a later attempt fail.",
   ["histories", "fault_sequences"],
   "every sequence of content changes, write attempts with different schema versions and disk faults at arbitrary positions, and retries, over every document and split-mapping configuration",
   "each test writes once, from a fresh workspace, to a disk that never fails",
   [WS, D, E],
   [("document set", f"{WS}: Workspace.write_documents, _write_document_from_config, _gen_package_to_document_mapping"),
    ("document configuration", f"{WS}: DocumentConfig, PackageToDocumentMapping, create_document, create_document_mapping")],
   ["Workspace.documents", "DocumentConfig.document"], ["files below the document root"]),

 p("C04", "Serialising never changes the model, even when it fails or is interrupted",
   "Writing a document, an element, or a workspace's documents leaves the in-memory model exactly as it was: every attribute, the order of elements, every element's reference path and parent, and every lookup give the same results as before. "
   "This also holds when the write fails through a disk error or is interrupted half-way.",
   ["fault_sequences", "inputs", "crash_points"],
   "every model, every output operation, and every disk error or interruption (such as a keyboard interrupt or memory exhaustion) at every point of the operation",
   "the tests compare produced text only; they do not look at the model after writing, and never interrupt a write",
   [W, WS, E],
   [("document writer", f"{W}: Writer.write_str, write_file, write_str_elem, write_file_elem"),
    ("document set output", f"{WS}: Workspace._write_document_from_config, _gen_package_to_document_mapping")],
   ["parent links", "package and element lists"], ["ref() of every element", "find() on the workspace"]),

 p("C05", "Truncated or torn ARXML files are never accepted as complete models",
   "Reading a file whose content is not one complete well-formed document (cut off, torn by a crash, partly overwritten, or failing to be read) raises an exception and never returns a model with part of the content silently missing. "
   "A crash while a set of documents is being written leaves every file already finished intact and every file not yet reached as it was.",
   ["crash_points", "fault_sequences"],
   "a crash or torn write at every system call and byte of writing a document or a document set, over fresh or existing targets, followed by a restart and a read; and every read error or premature end while reading",
   "no test crashes a write or reads a partial file; the interesting cut positions depend on the document and on buffer boundaries",
   [R, W, WS],
   [("document reader", f"{R}: Reader.read_file, Reader.read_str, Reader._read_root"),
    ("document writer", f"{W}: Writer.write_file, _XMLWriter._open, _close"),
    ("document set output", f"{WS}: Workspace.write_documents")],
   None, ["exception or model returned by the reader after restart", "bytes of the other files"]),

 p("C06", "A failed write leaves nothing open and nothing pending",
   "Once a write call has returned or raised, the library holds no open file for it and never writes to that file again, so a later successful write is not damaged by an earlier failed one. "
   "The same writer object then produces the same output as a new one.",
   ["fault_sequences", "histories"],
   "every sequence of write operations with one writer, each failing through a disk error, an element that cannot be written, or not at all, followed by rewrites of the same and other files",
   "the tests never make a write fail and never inspect open files; data left in an unflushed buffer reaches the disk only when the abandoned handle is collected, later",
   [W, TG],
   [("file output", f"{W}: Writer.write_file, Writer.write_file_elem, _XMLWriter._open, _close"),
    ("writer state", f"{W}: _XMLWriter.fh, tag_stack, indentation_level, line_number; Writer.schema_version")],
   ["open descriptors", "writer indentation and tag stack"], ["bytes on disk", "open descriptors below the scratch disk"]),

 p("C07", "A reader's result depends only on the document it is given, not on its history",
   "Reading a document with a reader that has been used before gives the same model, schema version, error or warnings as reading it with a new reader, whatever was read before: other schema versions, broken or rejected documents, unreadable files, or reads that were interrupted half-way. What a read returned is its caller's: changing it changes no later read and no other element that was read.",
   ["histories", "fault_sequences"],
   "every sequence of reads with one reader over valid documents, documents without or with other schema information, malformed documents, failing files and interrupted reads",
   "each test creates a new reader and reads one valid document with it",
   [R],
   [("document reader state", f"{R}: Reader.schema_version, schema_file, observed_unsupported_elements, Reader._read_root, _read_schema_version"),
    ("entry points", f"{R}: Reader.read_file, Reader.read_str, Reader.read_str_elem")],
   ["Reader.schema_version", "Reader.schema_file", "Reader.observed_unsupported_elements"], ["returned Document", "exception", "stderr"]),

 p("C08", "One damaged element does not take its neighbours with it",
   "When some elements of an otherwise well-formed document cannot be read, tolerant reading reports each of them, skips them, and returns every other package and element exactly as if the damaged ones were absent. "
   "When asked to stop on errors, reading raises instead and never returns a partial model.",
   ["fault_sequences", "inputs"],
   "every document and every set of elements damaged by missing, unknown or wrong values, wrong or duplicated content, or bytes corrupted on disk that leave the file well-formed, at every nesting depth",
   "the tests read valid single elements; damage at a nested position can surface as any kind of error, of which only some are contained",
   [R, E],
   [("per-element containment", f"{R}: Reader._read_package_elements, Reader._read_package, _read_packages"),
    ("error reporting", f"{R}: Reader.report_error or the printed diagnostics; stop_on_error")],
   None, ["returned Document", "diagnostics", "exception"]),

 p("C09", "Independent objects used from different threads do not disturb each other",
   "Threads that each use their own reader, writer, workspace, behaviour settings or type generator on their own models produce the same results and the same errors as when they run one after another, under every interleaving.",
   ["schedules"],
   "every interleaving of threads building models, reading, writing, applying configuration and templates, and generating headers, each on its own objects",
   "the tests are single-threaded; shared module-level tables, class attributes and mutable defaults only show under particular interleavings",
   [E, R, W, WS, EN, TG],
   [("module-level tables", f"{EN}: lookup tables; {R}: switcher tables; {E}: default argument values and class attributes"),
    ("entry points", f"{R}: Reader; {W}: Writer; {WS}: Workspace; {TG}: TypeGenerator")],
   ["module globals", "class attributes", "mutable defaults"], ["results of each thread"]),

 p("C10", "Concurrent lookups and serialisation of one unchanging model equal serial ones",
   "While no thread changes a model, any number of threads may look up elements in it, compute reference paths, resolve its ports and components, and serialise it, each with its own writer, and every result equals the one obtained alone.",
   ["schedules"],
   "every interleaving of lookups, reference computation and serialisation by several threads on one shared model or workspace",
   "the tests are single-threaded; a lookup that caches, reorders or temporarily changes shared state is only visible when another thread runs in the middle of it",
   [E, W, WS, D],
   [("lookup", f"{E}: PackageCollection.find, Package.find, Identifiable.ref, SwComponentType.find"),
    ("serialisation", f"{W}: Writer.write_str, write_file"),
    ("workspace lookups", f"{WS}: Workspace.find_element, get_package, get_package_ref_by_role")],
   ["package and element maps", "parent links"], ["result of each lookup and serialisation"]),

 p("C11", "Identical work gives byte-identical files in every process environment",
   "Building the same model by the same calls and writing its documents, its split documents and its type header gives byte-identical files in every process, whatever the hash seed, locale, preferred encoding, time zone, working directory, optimisation mode or directory contents; reading a file back gives the same model in all of them.",
   ["configurations", "histories"],
   "every program of model-building, configuration, template, behaviour-creation, writing and reading calls under every combination of process environment settings",
   "the tests run in one process with one environment; dependence on hash order, locale or encoding cannot show there",
   [W, WS, TG, IM, E, R],
   [("document output", f"{W}: _XMLWriter._open (encoding), Writer._write_document"),
    ("ordering", f"{WS}: _gen_package_to_document_mapping; {IM}: gen_type_dependency_trees; {E}: set-valued attributes"),
    ("number formatting", f"{W}: _format_float, _format_number")],
   None, ["bytes of the written files"]),

 p("C12", "The type header is complete, ordered and independent of request history",
   "The generated type header defines every requested data type and every type it depends on exactly once, each before its first use, leaving out only types marked as emitted elsewhere and base types without a native declaration; it is a header that both a C and a C++ compiler accept, that includes Rte.h before the first definition and can be included twice. "
   "Its content depends only on the set of types successfully requested, not on the order of requests, on repeated requests, on whether a type was first reached as a dependency, or on requests that failed in between. Requests and generation finish within a number of steps bounded in terms of the number of types and dependencies, however often types use each other.",
   ["histories", "fault_sequences", "inputs"],
   "every set of base, scalar, reference, array, record and pointer types with any dependency graph, every order and repetition of requests, and every interleaving of failing requests (missing references, unsupported categories) and failing header writes",
   "the tests request one type graph in one order; ordering across requests and after failures is never exercised",
   [IM, TG],
   [("request handling", f"{IM}: ImplementationModel.create_from_element, create_from_ref, source_type_refs, data_types"),
    ("ordering", f"{IM}: gen_type_dependency_trees, get_type_creation_order, _create_tree_node; {TG}: gen_data_type_creation_order"),
    ("emission", f"{TG}: _gen_type_defs, _gen_array_type_def, _gen_record_type_def, write_type_header")],
   ["ImplementationModel.data_types", "ImplementationModel.source_type_refs"], ["header text"]),

 p("C13", "Package trees stay consistent through every history of changes and rejections",
   "After any sequence of creating and looking up packages and elements and appending new ones, every package and element, and every part of a component, mode group or implementation data type, is found under exactly one path, that path is what its own reference reports, a path that leads nowhere finds nothing, names within one package are unique, nothing is part of itself, and iteration order is insertion order. "
   "An operation that raises (duplicate name, unusable object, invalid path) leaves the tree exactly as it was.",
   ["histories", "inputs"],
   "every sequence of package creation, element appending, path-based creation and lookups on workspaces, documents and packages, with duplicate names and invalid arguments mixed in",
   "the tests check single operations on small trees and never the state left behind by a rejected operation",
   [E, WS, D],
   [("package tree", f"{E}: PackageCollection.append, create_package, make_packages, find; Package.append, create_package, find"),
    ("reference paths", f"{E}: Identifiable.ref, Referrable.parent, root_collection"),
    ("package map", f"{WS}: create_package_map, add_element, find_element, get_package")],
   ["package_map/element maps", "parent links"], ["find()", "ref()", "iteration over packages and elements"]),

 p("C14", "Templates create each element once, dependencies first, also when creation fails",
   "Applying templates in any order and any number of times yields each element exactly once, in the package its namespace role designates, with its dependencies created before it and handed to its creation callback under their references, and later applications return the existing element. "
   "However many templates share dependencies, an application finishes in a number of steps bounded by the square of their number. If a creation callback fails, no element is left half-applied, elements already created stay usable, and applying again after the cause is gone completes the work.",
   ["histories", "fault_sequences"],
   "every dependency graph of templates, every order of applications over any number of namespaces and roles, and callbacks failing or returning invalid values at arbitrary applications",
   "the tests apply each template once in a fixed order with callbacks that never fail",
   [WS, T],
   [("template application", f"{WS}: Workspace.apply, _apply_element_template, _create_dependencies"),
    ("namespaces", f"{WS}: Namespace, create_namespace, get_package_ref_by_role; {T}: ElementTemplate.ref")],
   ["packages of the workspace"], ["elements found by reference", "callback arguments and invocation counts"]),

 p("C15", "Behaviour builder calls give unique names and a rejected call changes nothing",
   "Any sequence of calls that create runnables, events, variable, mode and operation accesses and port options on a software component's internal behaviour leaves uniquely named entries that reference the ports, data elements, operations and modes they were asked for. "
   "A call that is rejected (unknown port, wrong port kind, ambiguous or missing element) raises and leaves the behaviour and its component exactly as they were.",
   ["histories", "inputs"],
   "every sequence of valid and invalid builder calls with default, custom and clashing names over components with any set of ports and interfaces",
   "the tests make one call per builder on a prepared component; collisions between generated names and state after a rejected call need long mixed histories",
   [E],
   [("builders", f"{E}: SwcInternalBehavior.create_runnable, create_port_access_list or create_port_api_options, create_*_event"),
    ("unique names", f"{E}: make_unique_name_in_list"),
    ("naming settings", f"{E}: BehaviorSettings")],
   ["SwcInternalBehavior.runnables", "events", "port_api_options"], ["entries of the behaviour", "its serialised form"]),

 p("C16", "Loading a configuration file is all-or-nothing",
   "Loading a configuration file into a workspace either applies everything in it (namespaces, documents, document mappings, behaviour settings) or raises and leaves the workspace as it was. "
   "After a failed load, whether from an unreadable or damaged file or from invalid content, loading a correct file gives the same result as if the failed load had never happened.",
   ["fault_sequences", "histories"],
   "every configuration content, every read error, premature end or corruption while reading it, every kind of invalid entry at any position, and every sequence of failed and successful loads",
   "the tests load valid files once from a disk that does not fail",
   [WS, E],
   [("configuration loading", f"{WS}: Workspace.load_config, _create_namespace_from_config, _create_document_from_config, _create_document_mapping_from_config"),
    ("behaviour settings", f"{E}: BehaviorSettings.update")],
   ["Workspace.namespaces", "documents", "document_mappings", "behavior_settings"], ["workspace configuration after the call", "documents written afterwards"]),
 p("C17", "Ports, component prototypes and connectors are what was asked for; a rejected call changes nothing",
   "Any sequence of calls that creates ports with communication specifications, component prototypes and connectors on software components and compositions adds exactly the parts asked for, under names that are unique within their component: "
   "each port refers to its interface and carries every given com-spec option for the data element, operation or mode group it was given for, each prototype refers to its component type, and each connector joins exactly the two named ports in their roles, whatever their order in the call. "
   "A call that is rejected (name in use, unknown component, port or element, unusable option or com-spec, ports whose directions do not fit, an argument iterator that fails half-way) raises and leaves every component as it was.",
   ["histories", "failing_callers"],
   "every sequence of accepted and rejected calls on any set of components and port interfaces, with every form of com-spec argument and every combination of inner and outer ports",
   "the tests make a few accepted calls on fresh components",
   [E],
   [("port builders", f"{E}: SwComponentType.create_p_port, create_r_port, create_pr_port; ProvidePortComSpec/RequirePortComSpec.make_from_port_interface"),
    ("composition builders", f"{E}: CompositionSwComponentType.create_component_prototype, create_connector, _analyze_port_ref, _create_assembly_connector, _create_delegation_connector, _create_pass_through_connector"),
    ("lookups", f"{E}: SwComponentType.find, find_p_port, find_r_port, get_data_element_in_port, get_operation_in_port; CompositionSwComponentType.find")],
   ["SwComponentType.ports", "CompositionSwComponentType.components", "connectors"], ["parts of the component", "references of connectors and com-specs", "serialised form"]),
 p("C18", "An element built step by step is the element built at once; a step that fails changes nothing else",
   "Whatever sequence of append, extend and create calls builds up an element and the parts inside it, the element afterwards holds exactly the parts it was given, in the order given, with every argument of the calls, and is in all respects (contents, parents, references, written form) the element that constructing it at once with all parts gives. "
   "Elements are independent: growing one changes no other, also when both were made from the same data, and a list given as an argument stays the caller's. The make functions (constants from plain data, value tables, rational conversions, constraints) yield exactly the element their arguments stand for. "
   "A call that is rejected (wrong kind of part, unknown argument, an iterator that fails half-way) raises and changes nothing; a call interrupted at any point leaves everything else untouched, and its target with the old parts, followed at most by some of the new ones.",
   ["histories", "failing_callers", "crash_points"],
   "every sequence of accepted, rejected and interrupted building calls on every class that has such calls, at any depth, with every combination of arguments",
   "the tests build each element either at once or with one or two accepted calls, never grow two elements side by side, and never look at what a failed call left behind",
   [E],
   [("append and extend methods", f"{E}: append*, extend* of data types, value specifications, mode groups, port interfaces, ports, com-specs, components, runnables, internal behaviors, events"),
    ("creating methods", f"{E}: create_data_element, create_parameter, create_operation, create_argument, create_possible_error, create_mode_declaration, create_mode_group, create_exclusive_area, ..."),
    ("make functions", f"{E}: ConstantSpecification.make_constant, ValueSpecification.make_value, Computation.make_value_table, make_rational, DataConstraint.make_internal, make_physical")],
   ["element attributes", "parent links"], ["attributes of the element", "the same element constructed at once", "serialised form"]),
 p("C19", "Content the reader does not know disturbs nothing else and is reported",
   "Documents of other tools hold content this library has no class for: unknown elements with any content of their own at any depth, elements and attributes of other namespaces, parts of the AUTOSAR schema that are not implemented. "
   "Wherever such content stands beside other content, reading succeeds, also with stop_on_error, and gives exactly the model the document gives without it. "
   "Where an element's own reader takes stock of its children, every kind of unknown child is reported once per document, with the file as it was asked for (base name or full path) and the line where it stands; nothing is reported when reporting is switched off, nothing else is reported because of it, and what earlier documents held makes no difference.",
   ["inputs", "histories", "fault_sequences"],
   "every model, every number and kind of foreign parts at every place, every sequence of documents read by one reader, with failing reads between them",
   "the tests read fragments that hold only what the library knows, and never look at diagnostics",
   [R],
   [("taking stock of children", f"{R}: ChildElementMap, Reader._report_unprocessed_elements, _report_unprocessed_element"),
    ("namespaces and options", f"{R}: Reader.__init__, read_file, read_str, _clean_namespace")],
   ["observed_unsupported_elements"], ["model returned", "diagnostics on stderr"]),
 p("C20", "The same XML content reads as the same model, however it is spelled",
   "What a document means is given by its XML content: elements, attributes and texts. Encoding, byte order mark and declaration, namespace prefixes, order and quotes of attributes, character references, CDATA sections, entities declared in the document, "
   "comments and processing instructions between elements and inside texts, line ends, blanks in tags and between elements, and empty or split tags are spelling. Two well-formed documents with the same content give the same model and the same diagnostics, from a file or from a string "
   "(whose characters count, whatever encoding its declaration names), whatever the reader read before and however the operating system splits the reads. No text is cut short, joined wrongly or decoded differently.",
   ["inputs", "histories", "fault_sequences"],
   "every model, every combination of spellings, every sequence of reads of differently spelled documents by one reader, with short and failing reads",
   "the tests read fragments spelled the way the writer spells them",
   [R],
   [("parsing", f"{R}: Reader.read_file, read_str"), ("names", f"{R}: Reader._clean_namespace"), ("texts", f"{R}: all _read_* methods that use .text and .tail")],
   ["xml_root"], ["model returned", "diagnostics on stderr"]),
 p("C21", "Work continued from saved files gives what uninterrupted work gives",
   "A model that was read from files is as good as the one that was written: whatever work follows - building behaviours, ports, prototypes and connectors, growing elements, applying templates, requesting types, saving again - every call has the same result or the same error, "
   "and the final model, its references, parents, lookups and files are the same as when all the work is done in one process without saving. This holds wherever the work is interrupted and however often: after a save, between two calls, or by a crash or failed write during a save, "
   "when work goes on from the newest complete set of files, which can always be read.",
   ["histories", "crash_points", "fault_sequences"],
   "every history of builder, growth, template and type calls, every placement of saves, restarts and crashes, every disk fault during a save",
   "the tests read documents and build models, but never go on building a model that was read",
   [E, R, WS],
   [("restoring containment", f"{R}: _read_*; {E}: constructors and append methods"), ("lookups", f"{E}: Package.find, PackageCollection.append"),
    ("saving", f"{WS}: Workspace.write_documents")],
   ["_collection_map", "_package_dict", "parent"], ["results of calls", "files written"]),
 p("C22", "Every call makes progress: its steps stay in proportion to what it is given",
   "Every call finishes, in a number of steps that is bounded by the size of what it works on. Reading and writing documents take steps in proportion to the content (names of accesses are compared with the other accesses of their runnable). "
   "Any other call - looking up, computing references, growing elements and packages, building behaviours and compositions, making values from plain data, applying templates, requesting types and generating their header, "
   "writing configured and split documents, loading configurations - at most quadruples its steps when the amount of what it is given doubles, however deep things are nested and however much they share. "
   "Repeating a call on the same objects makes none of the later calls slower, also when some of them fail.",
   ["inputs", "histories", "fault_sequences"],
   "every size, shape and sharing of models, templates, type graphs and configurations, and any number of repeated calls, with interrupted, short and failing reads and writes",
   "the tests use a handful of small models, on which exponential and constant effort look the same",
   [E, R, W, WS, T, IM, TG],
   [("descending", f"{E}: find, update_ref_parts, make_packages, make_value; {R}, {W}: recursion over packages and values"),
    ("sharing", f"{WS}: Workspace.apply, _create_dependencies; {IM}: ImplementationModel.create_from_ref; {TG}: TypeGenerator"),
    ("repeated calls", f"{R}: Reader; {W}: Writer; {WS}: Workspace")],
   ["executed lines"], ["executed lines and jumps of the library during a call"]),
]

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w", encoding="utf-8") as out:
    for prop in PROPS:
        out.write(json.dumps(prop, ensure_ascii=False) + "\n")
