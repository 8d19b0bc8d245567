#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the JSON stays consistent)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                   state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=None)))

p("C01", "Any nodeset input is processed without memory errors, aborts or hangs",
  "Whatever bytes a nodeset file contains, and whatever order of import, sort, iterate and delete calls a caller makes on a loader or on a server backend load, the library never reads or writes outside live memory, never executes undefined behaviour, never aborts or crashes the process, and every call returns in time proportionate to the input.",
  ["inputs", "histories"], "every file content (valid, schema-violating, truncated, corrupted, not XML at all) and every history of public calls on one or several loaders, for the core library and the open62541 backend",
  "The tests load about twenty hand-written valid files without sanitizers; the quantifier is over all file contents and call histories, which nodeset files from third parties exercise in practice.",
  ["src/NodesetLoader.c", "src/Nodeset.c", "src/Value.c", "src/Sort.c", "src/AliasList.c", "backends/open62541/src/Value.c", "backends/open62541/src/DataTypeImporter.c", "backends/open62541/src/import.c", "backends/open62541/src/nodeset_base64.h"],
  [("SAX state machine with unknown-state skipping", "src/NodesetLoader.c:OnStartElementNs/OnEndElementNs"), ("alias table bound", "src/AliasList.c:AliasList_newAlias"), ("shape checks of value trees", "backends/open62541/src/Value.c"), ("termination of type layout", "backends/open62541/src/DataTypeImporter.c:calcMemSize")],
  observe=["ASan/UBSan reports, process exit, CPU time per case"])
p("C02", "Loading releases everything it allocated, on success and on failure",
  "After a loader is deleted, no memory allocated on its behalf remains allocated (libxml2's bounded per-process state aside), whether the imports and the sort succeeded or failed and whatever the file contained. After a backend load only what is registered with the server remains, and the documented clean-up function plus deleting the server releases that too.",
  ["inputs", "histories"], "every file content, every success or failure path, every history of calls ended by deletion",
  "Tests run without leak checking on the malformed and cyclic paths; leaks are per input shape (string node ids, duplicate elements, errors in mid-node), which a handful of files cannot cover.",
  ["src/nodes/Node.c", "src/Nodeset.c", "src/AliasList.c", "src/Parser.c", "src/Value.c", "backends/open62541/src/import.c", "backends/open62541/src/customDataType.c"],
  [("node destruction", "src/nodes/Node.c:Node_delete"), ("nodeset destruction", "src/Nodeset.c:Nodeset_cleanup"), ("custom type clean-up", "backends/open62541/src/customDataType.c")],
  observe=["live allocation count before and after a repeated run"])
p("C03", "Every declared node is delivered exactly once with exactly its attributes",
  "After a successful import and sort, iterating the eight node classes yields exactly the nodes declared in the files, each once and in its own class, and the iteration returns that count; this also holds when files are imported and sorted one after the other into the same loader. Every attribute, browse name and localized text (display name, description, inverse name with locale) equals what the file declares, and the documented default where the file declares nothing.",
  ["inputs"], "every well-formed nodeset: all node classes, attribute subsets, attribute orders, text contents and lengths, node counts",
  "Tests look at one or two nodes of fixed files; missing nodes, crossed attributes or wrong defaults in other combinations, sizes or text lengths go unnoticed.",
  ["src/NodesetLoader.c", "src/Nodeset.c", "src/nodes/NodeContainer.c", "src/Sort.c"],
  [("attribute extraction and defaults", "src/Nodeset.c:extractAttributes"), ("text accumulation", "src/NodesetLoader.c:OnCharacters"), ("container growth", "src/nodes/NodeContainer.c:NodeContainer_add")],
  observe=["NodesetLoader_forEachNode callbacks"])
p("C04", "Iteration delivers parents before their children",
  "After a successful sort, for every hierarchical relation declared by a node of the imported files (forward or inverse reference, or a parent node id when the node declares no hierarchical reference), the parent is delivered before the child within the iteration of their common node class, transitively also through nodes of other classes or nodes that are not part of the files. (When files are imported and sorted one after the other into one loader, this holds among the nodes of each sort; what an earlier sort delivered is not delivered again.)",
  ["inputs"], "every acyclic hierarchy, every order of node declarations in the files, every node id kind",
  "Topological order is a statement about all graphs and all declaration orders; the sort tests use six fixed small graphs.",
  ["src/Sort.c", "src/Nodeset.c"], [("topological sort", "src/Sort.c:Sort_start"), ("edge recording", "src/Sort.c:Sort_addNode"), ("balanced tree of ids", "src/Sort.c:search_node")],
  observe=["delivery order of NodesetLoader_forEachNode"])
p("C05", "Sorting fails exactly when the hierarchy has a cycle",
  "Sorting terminates on every set of imported nodes; it reports failure together with an error log message when the declared hierarchical relations contain a cycle of two or more nodes, and it never reports a cycle for an acyclic hierarchy (a node that references itself does not count as a cycle).",
  ["inputs"], "every directed graph of hierarchical relations, including long cycles, cycles behind acyclic prefixes, duplicated edges and self references",
  "Two fixed cyclic graphs are tested; a cycle miss or false report elsewhere loses or refuses whole nodesets.",
  ["src/Sort.c", "src/Nodeset.c"], [("edge counting", "src/Sort.c:record_relation"), ("loop detection", "src/Sort.c:Sort_start")], observe=["NodesetLoader_sort result, logger callbacks"])
p("C06", "Every declared reference is delivered unchanged and correctly classified",
  "Each reference a node declares is delivered on that node exactly once with its type, target and direction (forward unless declared otherwise), and no other reference appears apart from the parent link derived from a parent node id. It is listed as hierarchical, non-hierarchical or type definition according to the reference service in use (the caller's, or the built-in one for the standard reference types and reference types declared in the files), and a reference type nobody knows makes sorting fail with an error message.",
  ["inputs", "configurations"], "every set of references on every node class, standard and file-declared reference types, both kinds of reference service",
  "Tests check single references with the standard types; loss, duplication or misclassification for other counts, kinds, orders or custom services is not reached.",
  ["src/Nodeset.c", "src/InternalRefService.c", "src/Sort.c", "backends/open62541/src/RefServiceImpl.c"],
  [("classification", "src/Nodeset.c:Nodeset_newReference"), ("late lookup", "src/Nodeset.c:lookupUnknownReferences"), ("built-in service", "src/InternalRefService.c")], observe=["reference lists of delivered nodes"])
p("C07", "Namespace indices are translated per file, everywhere",
  "Every namespace index in a file (node ids, parent ids, reference types and targets, data types, browse names, aliases, definition fields) is replaced by the index the caller's namespace callback returned for the URI at that position of the same file's namespace table, index 0 stays 0. The callback is invoked once per declared URI, in order, with the declared text and the caller's context.",
  ["inputs", "histories"], "every namespace table, every callback mapping (including non-monotonic ones), every position where an index can occur, any number of files per loader",
  "Tests use one or two namespaces whose indices mostly map to themselves, so a missing or doubled translation is invisible.",
  ["src/Nodeset.c", "src/NamespaceList.c", "backends/open62541/src/ServerContext.c"], [("translation table", "src/NamespaceList.c"), ("id translation", "src/Nodeset.c:translateNodeId"), ("browse name translation", "src/Nodeset.c:translateBrowseName")], observe=["delivered ids and browse names; callback log"])
p("C08", "An alias means exactly the node id it stands for",
  "Wherever a nodeset may use an alias (reference types, reference targets, data types of variables, variable types and definition fields), using the alias gives the same result as writing its node id, for every number and spelling of aliases in the file; names that are no alias are read as node ids.",
  ["inputs"], "every alias table (size, names, id kinds) and every position of use",
  "Tests use the few standard aliases; the table's size limit, string ids and prefix-like names are not reached.",
  ["src/AliasList.c", "src/Nodeset.c"], [("lookup", "src/AliasList.c:AliasList_getNodeId"), ("resolution", "src/Nodeset.c:alias2Id")], observe=["delivered ids"])
p("C09", "The value tree of a variable mirrors its XML value",
  "For every variable with a value the delivered tree reproduces the element structure of the declared value (scalars, lists, extension objects with type id and body, nested structures) with names in document order, texts intact and whitespace-only or missing texts absent, and the flags for array and extension object and the type name match the declaration; a variable without a value has none.",
  ["inputs"], "every nesting depth, member count, list length and text of schema-conforming values",
  "The unit tests drive six fixed event sequences.",
  ["src/Value.c", "src/NodesetLoader.c"], [("value state machine", "src/Value.c:Value_start/Value_end")], observe=["NL_Value of delivered variables"])
p("C10", "Data type definitions and encoding links are delivered completely",
  "Each data type node delivers its definition exactly as declared: all fields in order with name, data type, value rank, enum value and optional flag, and whether it is a structure, union, enumeration or option set (an option set is delivered as such, its fields are not part of the promise). Every default binary encoding node that points back to its data type yields exactly one encoding link between the two, available right after import.",
  ["inputs"], "every definition kind, field count and attribute subset; any number of encoding nodes",
  "Tests look at single definitions through the backend only.",
  ["src/Nodeset.c", "src/nodes/DataTypeNode.c"], [("field recording", "src/Nodeset.c:Nodeset_addDataTypeField"), ("encoding links", "src/Nodeset.c:Nodeset_newReferenceFinish")], observe=["NL_DataTypeNode.definition, NodesetLoader_getBidirectionalRefs"])
p("C11", "Extension callbacks see each extension exactly as written",
  "For each extension element of a node the caller's callbacks run as one well-nested session: creation, start and end for every inner element in document order with name, attributes and (for elements without inner elements) text, never text of another element, then finish, and the object returned at creation for the node's last extension is what the node carries (and what a load into a server passes on as the node's context). Callbacks of a handler that creates no object run the same way. Without an extension handler extensions are skipped without any effect on the rest of the node.",
  ["inputs"], "every inner element structure (nesting, attributes, texts, inner elements that share names with nodeset elements), any number of nodes with extensions",
  "One extension file is tested.",
  ["src/NodesetLoader.c"], [("extension states", "src/NodesetLoader.c:PARSER_STATE_EXTENSION")], observe=["callback trace, node extension pointer"])
p("C12", "Unreadable or malformed files are reported as failures",
  "Importing a file that cannot be opened, is empty, or is not well-formed XML (including truncated at any byte) returns failure and logs at least one error; importing a well-formed nodeset returns success and logs none. Invalid arguments (no file context, no namespace callback) fail the same way without side effects.",
  ["inputs", "fault_sequences"], "every truncation point and every well-formedness error of every file, missing files, directories, invalid arguments",
  "No test imports a truncated or malformed file.",
  ["src/Parser.c", "src/NodesetLoader.c"], [("push parser result", "src/Parser.c:Parser_run"), ("argument checks", "src/NodesetLoader.c:NodesetLoader_importFile")], observe=["return values, logger callbacks"])
p("C13", "Stored text never overlaps, moves or changes while its owner lives",
  "Every block handed out by the text storage is zero-initialised, keeps its address and contents until the storage is deleted or (for the most recent block only) it is extended, and no two blocks overlap; extending the most recent block preserves its earlier contents and zero-fills the added part. This holds for every sequence of requests, whatever their sizes relative to the storage's initial size.",
  ["histories", "inputs"], "every sequence of allocate and extend requests of any size, for any initial size",
  "The five allocator tests follow fixed short sequences; the boundary where a block must move to a new region under arbitrary earlier history is not covered.",
  ["src/CharAllocator.c", "src/CharAllocator.h"], [("bump allocation", "src/CharAllocator.c:CharArenaAllocator_malloc"), ("extend with relocation", "src/CharAllocator.c:CharArenaAllocator_realloc")],
  [("region", "chunk of storage with bump pointer and most recent block", "src/CharAllocator.c:struct Region")], ["returned pointers and block contents"])
p("C14", "Results depend only on what the file says",
  "Importing the same nodeset twice, in the same or another loader (in the same loader: as far as delivered nodes go), before or after other nodesets were loaded by other loaders, gives identical results, and so does any XML rendering of the same content: namespace prefixes, attribute order, quoting, entities, comments, CDATA, insignificant whitespace, unknown elements, and where the text falls relative to internal read chunks do not matter, nor do the locale and the time zone of the process.",
  ["inputs", "histories", "configurations"], "every equivalent rendering of a nodeset, every history of earlier loads in the same process",
  "Tests load each file once in one rendering in a fresh process.",
  ["src/NodesetLoader.c", "src/Parser.c", "src/InternalRefService.c", "src/Nodeset.c"], [("chunked push parsing", "src/Parser.c:Parser_run"), ("unknown element skipping", "src/NodesetLoader.c:enterUnknownState"), ("per-loader reference service", "src/InternalRefService.c")], observe=["complete delivered content compared between runs"])
p("C15", "The backend builds exactly the declared address space",
  "After a successful backend load of a nodeset whose outside references exist on the server, the server holds every declared node with its class, names, attributes, type definition and parent, and exactly the declared references plus their inverses; nothing else changed. (Methods, views and type nodes are expected to declare their parent themselves, by an inverse hierarchical reference or a parent node id, as the nodeset schema's users do; objects and variables may also be placed by a forward reference of the parent alone.) Nodes that can only be added after nodes of another class are still added, however long such chains are.",
  ["inputs", "histories"], "every valid nodeset over all node classes, forward-only (objects, variables) and inverse-only hierarchies, several files loaded one after the other",
  "Tests read a few attributes of a few nodes after loading a fixed file.",
  ["backends/open62541/src/import.c", "backends/open62541/src/ServerContext.c", "backends/open62541/src/RefServiceImpl.c"], [("class order and second chance", "backends/open62541/src/import.c:addNodes"), ("references", "backends/open62541/src/import.c:addNonHierachicalRefs")], observe=["server node and reference tables"])
p("C16", "Registered custom data types have the layout the C types would have",
  "For every data type a nodeset declares, the description registered with the server has the declared name, ids, kind and members, and its sizes, paddings, pointer-free flag and member types equal those of the natural C layout of the corresponding type (inherited members first; arrays as length and pointer; optional members as pointers; unions as switch field and union; members of an abstract type as variants), independent of declaration order.",
  ["inputs"], "every acyclic set of structure, union, enumeration, option set and simple subtypes over the built-in types, with arrays, optional members, inheritance and nesting",
  "Tests compare about thirty fixed types with generated code.",
  ["backends/open62541/src/DataTypeImporter.c", "backends/open62541/src/padding.h"], [("layout computation", "backends/open62541/src/DataTypeImporter.c:setPaddingMemsize"), ("inheritance", "backends/open62541/src/DataTypeImporter.c:setDataTypeMembersTypeIndex")], observe=["custom data types of the server configuration"])
p("C17", "Variable values arrive on the server as declared",
  "For every variable with a value of a supported type, the value read from the server has the declared data type, scalar or array shape and exactly the declared content: full numeric range, texts, byte strings, ids and qualified names with translated namespaces, localized texts, times, enumerations, and structures and unions member by member, absent members being empty.",
  ["inputs"], "every supported built-in type, enumeration, structure and union, scalar and array, any subset of members present",
  "Tests read a few values with small numbers.",
  ["backends/open62541/src/Value.c", "backends/open62541/src/conversion.h", "backends/open62541/src/nodeset_base64.h", "backends/open62541/src/import.c"], [("conversion", "backends/open62541/src/Value.c:setScalar"), ("structures", "backends/open62541/src/Value.c:setStructure/setUnion")], observe=["variant read from the server"])
p("C18", "What a load leaves on the server stays valid after the loader is gone",
  "Everything registered with the server (nodes, values, custom data types with their names, ids and members) remains valid and unchanged after the load returns and its temporary data is released, also when further files are loaded, and later files can use types from earlier files.",
  ["histories", "inputs"], "every sequence of loads on one server, numeric and string ids, followed by reads of everything and clean-up",
  "Tests read back values right after the load and never touch type ids with string identifiers after release.",
  ["backends/open62541/src/DataTypeImporter.c", "backends/open62541/src/import.c", "backends/open62541/src/customDataType.c"], [("ownership of type descriptions", "backends/open62541/src/DataTypeImporter.c")], observe=["reads of all server state under ASan after the load"])
p("C19", "A failed load adds nothing to the server's address space",
  "When a backend load reports failure (unreadable or malformed file, cyclic hierarchy, unknown reference type, missing arguments), no node, reference or data type of that file has been added to the server, an error was logged, and a later correct load on the same server succeeds with its complete result.",
  ["fault_sequences", "histories"], "every cause of failure at every position of the file, followed by further loads",
  "No test loads a failing file into a server.",
  ["backends/open62541/src/import.c"], [("import and sort before adding", "backends/open62541/src/import.c:NodesetLoader_loadFile")], observe=["server node, reference and type tables before and after"])
p("C20", "The demo dump shows what was loaded",
  "The command line demo prints, for each node of the given files, one entry with its node id, browse name and display name and every declared reference except type definitions with type and target, and for objects and variables the class attributes under their own labels; it exits zero exactly when all files could be imported.",
  ["inputs"], "every valid set of nodeset files; unreadable and malformed files",
  "The demo is only run for its exit code.",
  ["backends/stdout/examples/main.c", "backends/stdout/examples/dump.c"], [("dump", "backends/stdout/examples/dump.c:dumpNode")], observe=["standard output, exit status"])
p("C21", "Independent loaders can run in parallel threads",
  "Loaders used by different threads, each loader by one thread only, do not race with each other on any memory and give the same results as when run one after the other.",
  ["schedules"], "every interleaving of imports, sorts, iterations and deletions of independent loaders",
  "No test uses threads.",
  ["src/InternalRefService.c", "src/Parser.c", "src/NodesetLoader.c"], [("no shared mutable state", "src/InternalRefService.c")], observe=["ThreadSanitizer reports, per-thread results"])
p("C22", "Log messages reach the log completely and with their level",
  "Every message the library logs through the built-in logger appears on standard output as one line carrying the level and the fully formatted message text with its arguments; messages logged through a caller's logger arrive at that logger with its context and level, and nothing is printed by the library instead. A load into a server that fails, or that has nodes refused, tells the server's logger so by an error or a warning.",
  ["inputs", "configurations"], "every level, format and argument list; built-in and caller-supplied loggers",
  "No test looks at log output.",
  ["src/PrintfLogger.c", "src/NodesetLoader.c", "backends/open62541/src/import.c"], [("built-in logger", "src/PrintfLogger.c:logStdOut"), ("server logger bridge", "backends/open62541/src/import.c:logToOpen")], observe=["standard output, logger callbacks"])
p("C23", "XML events reach their consumer complete and in order, whatever the chunking",
  "For every well-formed document (without a document type definition and within libxml2's own limits on depth and size) the parser delivers the start, end and text events of the whole document in order, with names, attributes (predefined entities and character references resolved) and concatenated texts equal to those of a parse in one piece, with the consumer's own context, for every document size and position relative to the read chunks; it reports failure for every document that is not well-formed, and never reports success after delivering only part of a document.",
  ["inputs"], "every document and length, including multi-byte characters, entities and tags that straddle read boundaries, empty and one-byte files",
  "No test drives the XML layer; fixed files place their contents at fixed offsets.",
  ["src/Parser.c", "src/Parser.h"], [("push parsing loop", "src/Parser.c:Parser_run")], observe=["recorded callback trace compared with a reference parse"])
p("C24", "A parent node id gives the node its parent link",
  "An instance node that names a parent but declares no hierarchical reference gets exactly one hierarchical link to that parent: of the type the parent uses for it when the parent already declared such a reference, otherwise a has-component link; a node that declares hierarchical references, or names no parent, gets none.",
  ["inputs"], "every instance node class, every order of parent and child, every reference type of the parent",
  "One file with one order is tested.",
  ["src/Sort.c"], [("parent link synthesis", "src/Sort.c:Sort_addNode")], observe=["reference lists of delivered nodes"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
