#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
      "quantifier": {"over": over, "text": " ".join(text.split())},
      "why_tests_cant": " ".join(why.split()),
      "anchors": {"files": ["yangson/" + f for f in files],
                  "mechanism": [{"name": n, "where": "yangson/" + w} for n, w in mech],
                  "observe_at": observe}})

p("P01", "Structural validation accepts exactly the schema-valid documents",
  """For every YANG schema and instance document, loading the document and validating it against the schema
  (as configuration only, or with state data) succeeds exactly when each node is one the schema allows at its place
  (known name, content type, true "when" condition, nodes from a single case of each choice), and every mandatory leaf,
  choice, list key and minimum or maximum number of entries that applies is respected.
  A violation is reported with the library's schema, type or semantic error and never as a success or an unrelated crash.""",
  ["inputs", "configurations"],
  """all generated schemas (nested containers with and without presence, lists, leaf-lists, choices and cases, anydata,
  augments with and without "when", uses with "when", config true/false) and all valid documents plus mutations of them""",
  """The tests validate a handful of hand-written documents against two fixed schemas; the verdict has to be right for every
  combination of schema constructs and every document.""",
  ["schpattern.py", "schemanode.py", "instance.py"],
  [("schema patterns and their derivatives", "schpattern.py"), ("pattern construction and cardinality checks", "schemanode.py")],
  ["RootNode.validate", "DataModel.from_raw"])

p("P02", "Semantic validation enforces must, unique, key and reference constraints",
  """Validation of a structurally valid document succeeds exactly when every "must" expression holds at each node present, list keys
  and "unique" combinations (default values counted) are not repeated, configuration leaf-lists have no duplicate values,
  and every leafref and instance-identifier that requires an instance points to an existing one.
  A "must" failure is reported with the error tag and message given in the schema.""",
  ["inputs", "configurations"],
  """generated schemas with must/unique/key/leafref/instance-identifier constraints, documents satisfying them and documents
  with one or more of them broken""",
  """Which entries collide, which default values take part and which node a reference leads to depend on the data; tests look
  at a few fixed documents.""",
  ["schemanode.py", "datatype.py", "xpathast.py", "instance.py"],
  [("must/unique/key checks", "schemanode.py"), ("leafref and instance-identifier dereferencing", "datatype.py")],
  ["RootNode.validate"])

p("P03", "A leaf accepts exactly the values its YANG type allows",
  """For every built-in type, with any restrictions applied directly, through chains of typedefs or as union members, a JSON
  value is accepted for a leaf exactly when it has the JSON encoding prescribed for that type and lies in the type's value
  space (integer bounds, ranges, fraction digits, lengths, patterns and inverted patterns, enumeration and bit names, base64
  content, derived identities, union members; excess fraction digits are rounded off).
  A rejected value leads to the type error carrying the error tag and message declared by the restriction that failed.""",
  ["inputs", "configurations"],
  "randomly generated type definitions with typedef chains and restrictions; values at, next to and far from every boundary, of every JSON type",
  "Tests try a few values on a few types; correctness depends on every boundary and on how restrictions combine along a typedef chain.",
  ["datatype.py", "constraint.py"],
  [("from_raw / membership test of each type", "datatype.py"), ("interval and pattern restrictions", "constraint.py")],
  ["DataModel.from_raw", "RootNode.validate", "DataType.__contains__"])

p("P04", "Converting a leaf value between representations never changes it",
  """For every type and every valid value, converting the value to its JSON, XML or canonical text form and reading that form
  back yields the same value; all lexical forms of one value are read as that value and its printed forms are the canonical
  ones prescribed by YANG. Enumeration values and bit positions that are not given explicitly are numbered as YANG prescribes.""",
  ["inputs"],
  "all built-in types and typedef/union combinations of them; all valid values and all their lexical representations",
  "A conversion can lose precision, escape wrongly or pick another union member for values no test uses.",
  ["datatype.py"],
  [("to_raw/from_raw, to_xml/from_xml, canonical_string/parse_value of each type", "datatype.py")],
  ["DataType methods", "InstanceNode.raw_value", "InstanceNode.__str__"])

p("P05", "JSON documents survive a load and dump unchanged",
  """Loading any valid JSON instance document (configuration, state, operation input or output, notification) and dumping it
  produces the same document, up to member order, redundant namespace prefixes and canonical forms of leaf values.
  Dumping the reloaded dump changes nothing more, and dumping any subtree gives the corresponding part of the whole.""",
  ["inputs", "configurations"],
  "valid documents of generated multi-module schemas with every node kind, written with and without redundant namespace prefixes; notifications and operations at the top level of modules",
  "Loss or renaming of a node occurs only for certain node kinds, module boundaries or values; tests reload one document.",
  ["instance.py", "schemanode.py", "datamodel.py"],
  [("raw to cooked conversion", "schemanode.py"), ("cooked to raw conversion", "instance.py")],
  ["DataModel.from_raw", "InstanceNode.raw_value"])

p("P06", "XML documents carry the same data as their JSON counterparts",
  """For any valid instance document without anydata or anyxml, writing it as XML and reading that XML back gives an equal
  data tree, each XML element carries the name, namespace and canonical text that the schema prescribes, and entries of lists
  and leaf-lists keep their order. Any XML text is parsed into the same elements, attributes and text that a standard XML parser sees.""",
  ["inputs", "configurations"],
  "valid documents of generated multi-module schemas, including top-level operations and notifications, whose union values have texts that only one member type accepts and whose strings contain no carriage returns; XML texts with arbitrary prefixes, comments, white space and element order",
  "Namespace handling, empty values and interleaved entries matter only for particular documents; tests convert two small files.",
  ["instance.py", "schemanode.py", "datatype.py", "xmlparser.py", "datamodel.py"],
  [("to_xml", "instance.py"), ("from_xml", "schemanode.py"), ("namespace-aware XML parser", "xmlparser.py")],
  ["RootNode.to_xml", "DataModel.from_xml", "XMLParser"])

p("P07", "Adding defaults adds exactly the default values in use",
  """Adding defaults to a valid document yields the document plus exactly those default leafs, leaf-lists and non-presence
  containers that YANG declares to be in use (type defaults, default cases, active cases, "when" conditions, content type),
  at every level including inside list entries. Values that were present stay as they were, the original tree is not affected,
  doing it again adds nothing, and values marked as defaults are exactly the added ones (a container added for its defaults is marked as a whole).""",
  ["inputs", "configurations"],
  "generated schemas with defaults on leafs, leaf-lists, types and choices; valid documents with any subset of nodes missing",
  "Which defaults are in use depends on the interplay of choices, conditions, presence and the data; tests look at one tree.",
  ["schemanode.py", "instance.py"],
  [("default computation", "schemanode.py"), ("recursive traversal and tagging", "instance.py")],
  ["InstanceNode.add_defaults"])

p("P08", "Edits build new trees, follow the edit model and leave old versions intact",
  """After any sequence of moves and edits (member or entry access, put, update, delete, insert before or after, sibling,
  next, previous, up, top) the tree is exactly what the same operations produce on a plain nested structure, with the focus
  on the expected node, path, index and value. Every node obtained earlier keeps showing the value it had when it was obtained,
  and a failing operation reports a nonexistent or incompatible instance and changes nothing.""",
  ["histories", "inputs"],
  "all operation sequences over generated schemas and documents, with several retained versions of the tree; member names as they are spelled in the tree",
  "Aliasing between versions or a wrong index shows up only after particular sequences; tests run short fixed ones.",
  ["instance.py", "instvalue.py"],
  [("persistent zipper", "instance.py"), ("copy-on-write values", "instvalue.py")],
  ["InstanceNode edit and navigation methods"])

p("P09", "Merging combines two documents as YANG prescribes and alters neither",
  """Merging a value into an instance yields the recursive combination of both: members of either side, list entries matched
  by key (by equality if there are no keys), leaf-list entries matched by value, unmatched new entries appended in their order, and the new value winning for
  leafs, anydata and anyxml. The receiver and the merged value stay as they were, merging a tree with itself or with an empty one changes
  nothing, and the raw and cooked forms of the argument give the same result.""",
  ["inputs", "histories"],
  "pairs of documents of generated schemas, sharing any part of their content, merged at any node",
  "Entry matching, ordering and isolation from the original depend on how the two documents overlap; the tests merge one pair.",
  ["instance.py"],
  [("recursive merge", "instance.py")],
  ["InstanceNode.merge"])

p("P10", "Data values are equal exactly when they hold the same data",
  """Two structured data values compare equal exactly when they hold the same members with equal values or the same entries in
  the same order, whatever their history, timestamps or member order; inequality is the negation of equality, equal values have
  equal hashes, and equality separates any two different documents.""",
  ["inputs"],
  "pairs of documents of one schema that are identical, permuted, or differ in one place, over all value types",
  "Equality decided by anything weaker than content fails only for unlucky pairs of values that no test contains.",
  ["instvalue.py"],
  [("structural comparison and hashing", "instvalue.py")],
  ["==, != and hash of array and object values"])

p("P11", "Every instance has an address that leads back to exactly that instance",
  """For every node of every document, its instance identifier, its RESTCONF resource identifier and its instance route,
  printed and parsed again, lead to that same node, whatever characters the key values contain, both by moving there and by
  looking up the value. An address that matches nothing gives no value when looked up, and a documented "nonexistent" or
  "incompatible" error when moved to or parsed.""",
  ["inputs"],
  "every node of generated documents with keys of all types and arbitrary text in key and leaf-list values (within what the address syntax can express: no value with both kinds of quotes in instance identifiers, no lone empty key in resource identifiers, no union value whose text means another value); addresses with altered names, keys, values and positions",
  "Quoting, escaping, canonical forms and multi-key order break only for particular key values; tests use plain words and numbers.",
  ["instance.py", "instroute.py", "datamodel.py"],
  [("identifier parsers and route selectors", "instance.py"), ("instance routes", "instroute.py")],
  ["instance_route, json_pointer, goto, peek, parse_instance_id, parse_resource_id, look_up"])

p("P12", "XPath expressions evaluate as XPath 1.0 and YANG define",
  """For every supported XPath expression and every context node, evaluation gives the value or node-set that the XPath 1.0 rules
  and the YANG extension functions prescribe on the accessible tree, including type conversions, comparison rules, operator precedence,
  numeric special values, predicates, axes and string functions. Default values in use are visible to the expression
  as ordinary nodes.""",
  ["inputs", "configurations"],
  "random well-formed expressions over all operators, functions, axes and node tests, evaluated at random nodes of random documents",
  "Tests evaluate some sixty fixed expressions on one document; the rules have to hold for every nesting and operand type.",
  ["xpathast.py", "nodeset.py", "instance.py"],
  [("expression evaluation", "xpathast.py"), ("node-set comparisons", "nodeset.py"), ("axis methods", "instance.py")],
  ["Expr.evaluate"])

p("P13", "XPath text is parsed by the grammar and printed without changing its meaning",
  """Every well-formed XPath expression is accepted, whatever optional white space it uses, and grouped by the XPath 1.0 precedence
  rules; every malformed one is rejected with a syntax error. The printed form of a parsed expression parses again to an
  expression that prints identically and has the same meaning.""",
  ["inputs"],
  "random expression texts of the supported part of XPath 1.0 (no variables, attributes, prefix wildcards or predicates on abbreviated steps) with arbitrary white space, quoting, prefixes and names that collide with operator names; random corruptions of them",
  "Tokenisation and precedence errors appear only in particular combinations; the tests parse a fixed set.",
  ["xpathparser.py", "xpathast.py"],
  [("recursive-descent parser", "xpathparser.py"), ("expression printing", "xpathast.py")],
  ["XPathParser.parse", "str(Expr)"])

p("P14", "YANG module text is parsed into exactly the statements it contains",
  """For every statement tree, any YANG text spelling it (any mixture of unquoted, single-quoted, double-quoted and concatenated
  arguments, escapes, comments and white space) parses into the same keywords, prefixes, arguments and nesting. Text that is not
  well-formed YANG, or a module whose name or revision is not the expected one, is rejected with a documented error.""",
  ["inputs"],
  "random statement trees with random lexical renderings that RFC 7950 defines (no quotes or comment ends inside unquoted strings); corrupted module texts; the revision is that of the first revision statement",
  "The space of lexical spellings is unbounded and the tests parse about twenty snippets.",
  ["statement.py", "parser.py"],
  [("statement parser", "statement.py"), ("basic parser", "parser.py")],
  ["ModuleParser.parse", "Statement"])

p("P15", "Feature conditions include exactly the nodes whose expression is true",
  """For every set of supported features, an if-feature expression evaluates as the Boolean expression it denotes (not, and, or,
  parentheses, prefixes, precedence), and the schema contains exactly those definitions all of whose if-feature statements hold.
  A malformed expression or a supported feature whose own prerequisite is not supported is rejected.""",
  ["inputs", "configurations"],
  "random expressions over declared local and imported features, operators separated by white space, random feature sets, if-feature on every kind of definition",
  "2^n feature sets times unbounded expressions; the tests evaluate seven expressions under one set.",
  ["schemadata.py", "schemanode.py", "datatype.py"],
  [("if-feature parser and evaluation", "schemadata.py"), ("conditional definitions", "schemanode.py")],
  ["DataModel schema", "FeatureExprParser.parse"])

p("P16", "Identity derivation is the transitive closure of the declared bases",
  """For any set of modules with identities, one identity is derived from another exactly when a chain of base statements connects
  them, and an identityref accepts exactly the identities derived from all of its bases, in prefixed form or, for the leaf's own
  module, without a prefix. XPath's derived-from and derived-from-or-self agree with this relation, and none of these answers
  changes with the queries made before.""",
  ["inputs", "configurations", "histories"],
  "random acyclic multi-base identity graphs across modules (identities of import-only modules take part in derivation but are no values), in random declaration order; all pairs; repeated queries in any order",
  "Tests use one small fixed hierarchy; closure, intersection and query-order effects need many graphs.",
  ["schemadata.py", "datatype.py", "schemanode.py", "xpathast.py"],
  [("identity adjacencies and derivation", "schemadata.py"), ("identityref values", "datatype.py")],
  ["SchemaData.is_derived_from, derived_from, derived_from_all", "identityref validation", "derived-from()"])

p("P17", "Composed schemas equal their hand-expanded equivalents",
  """A schema built with groupings, refinements, augments, deviations, submodules, typedefs or shorthand cases is the same schema (node names,
  namespaces, kinds, types, defaults, mandatory and config properties, constraints, order of keys) as the one written out in full, and accepts and
  rejects the same documents. Nested and repeated uses do not influence one another.""",
  ["configurations", "inputs"],
  "random base schemas (names of derived types are not compared) factored at random into groupings, submodules, augments, refines, typedefs and deviations",
  "The tests have one fixed module set; factoring choices combine without limit.",
  ["schemanode.py", "schemadata.py", "datatype.py"],
  [("uses, augment, refine, deviation handling", "schemanode.py"), ("definition lookup and prefix resolution", "schemadata.py")],
  ["DataModel.schema_digest", "ascii_tree", "RootNode.validate"])

p("P18", "Schema queries describe exactly the schema that was loaded",
  """Every data node of a loaded schema is found by its data path and by its schema path, and reports the path it was found by, while any other path finds
  nothing or gives a documented error. The schema digest and the ASCII tree list every data node once with its name, kind, type, default,
  mandatory, config and key properties, and the module-set identifier is the hash of the sorted module and submodule revisions.""",
  ["configurations", "inputs"],
  "generated multi-module schemas; every node path outside operations and notifications and random alterations of it",
  "Lookups interact with choices, cases and namespaces; the tests query a few paths in one schema.",
  ["datamodel.py", "schemanode.py"],
  [("path lookup", "datamodel.py"), ("digest and tree output", "schemanode.py")],
  ["get_data_node, get_schema_node, data_path, schema_digest, ascii_tree, module_set_id"])

p("P19", "Reading and validating never changes the model or the data",
  """No sequence of read-only requests (validating, dumping, printing, digesting, evaluating expressions, looking up, adding
  defaults to a copy) changes a later answer: repeating any request on the same model and data gives the same result as asking a freshly
  built model. A pickled and restored model answers the same, and the verdict on a document does not depend on the order of its members
  or, for system-ordered lists without positional conditions, of its entries.""",
  ["histories", "inputs"],
  "random sequences of queries over generated models and documents, each compared with a fresh model (validation counters, which accumulate by design, are not compared); permuted documents; pickled copies",
  "Hidden state (cached patterns, shared defaults, derived sets) shows only under particular query histories.",
  ["datamodel.py", "schemanode.py", "schpattern.py", "schemadata.py", "instance.py"],
  [("lazily built schema patterns with when flags", "schpattern.py"), ("identity sets", "schemadata.py"), ("shared default values", "schemanode.py")],
  ["all read methods of DataModel and InstanceNode"])

p("P20", "Arbitrary input only ever leads to documented errors",
  """Whatever JSON value, XML text, identifier text, XPath text, YANG text or library data is supplied, the library either accepts it or
  raises one of its own documented exceptions with a printable message; it does not crash with an internal error or hang.""",
  ["inputs"],
  "arbitrary JSON values and mutated valid documents, arbitrary and mutated identifier, XPath, if-feature, XML and YANG module texts of bounded nesting depth; models are built from grammatically valid modules; arguments have the documented Python types",
  "Tests exercise expected mistakes; unexpected shapes of input are unbounded.",
  ["instance.py", "schemanode.py", "datatype.py", "parser.py", "statement.py", "xpathparser.py", "schemadata.py", "exceptions.py"],
  [("exception hierarchy", "exceptions.py"), ("input conversion", "schemanode.py")],
  ["public entry points of DataModel and parsers"])

p("P21", "Metadata annotations are kept, checked and attached to the right node",
  """Metadata attached to any container, leaf or list entry of a JSON document survives a load and dump and edits elsewhere, is checked
  against the type declared by the annotation, and does not influence validation verdicts, default values or addresses.
  Undeclared annotations, values of a wrong type and annotations of absent nodes are rejected.""",
  ["inputs"],
  "valid documents with random annotations on random nodes, and invalid annotations; edits of the annotated documents",
  "Tests annotate two nodes of one document; metadata has to be carried correctly everywhere.",
  ["schemanode.py", "instance.py"],
  [("metadata conversion", "schemanode.py"), ("metadata output", "instance.py")],
  ["DataModel.from_raw", "InstanceNode.raw_value", "validate"])

p("P22", "Output filters remove exactly what they reject",
  """Dumping with an output filter yields, in JSON and in XML, the full dump without exactly those members and entries (with all their content) for
  which the filter said no before or after visiting them (in JSON also without list entries left empty); the filter is asked once before and once after every visited node, in
  document order with proper nesting, and an all-accepting filter changes nothing.""",
  ["inputs"],
  "random accept/reject decisions on the nodes of generated documents",
  "The tests filter one document in three ways.",
  ["instance.py"],
  [("filter callbacks", "instance.py")],
  ["InstanceNode.raw_value(filter)", "InstanceNode.to_xml(filter)"])

p("P23", "The command line tool reports what the library decides",
  """For any model and document the command line tool exits with success exactly when the library accepts the document for the chosen scope and
  content type, with its documented distinct exit codes (1 for unreadable or malformed JSON files, 2 for library or data model problems, 3 for an invalid instance); its identifier, tree,
  digest and module-set outputs are those of the library.""",
  ["inputs", "configurations"],
  "generated models, valid, invalid and malformed documents, and all option combinations",
  "Nothing in the tests compares the tool's verdict with the library's on varied input.",
  ["__main__.py"],
  [("command line driver", "__main__.py")],
  ["exit status and output of the yangson command"])

p("P24", "Converting new-style YANG library data keeps the module set",
  """Converting RFC 8525 library data to the older format yields data from which the same schema is loaded: every module, revision, submodule,
  feature and deviation of the selected datastore schema is kept with the right conformance type, and nothing else is added.
  Malformed input is refused with one of the documented nonzero exit codes.""",
  ["inputs"],
  "random RFC 8525 documents with several module-sets, schemas and datastores, where modules shared between module-sets are described alike",
  "The conversion has no tests at all.",
  ["convert8525.py"],
  [("library data conversion", "convert8525.py")],
  ["convert8525 output"])

p("P25", "A model is built from exactly the modules the library data lists",
  """For every set of module files and library data, the model uses precisely the listed names, revisions, submodules and conformance types:
  only implemented modules contribute data nodes, imports and includes resolve to the listed revision (the newest one if no revision is given), and definitions are
  looked up in the right module, submodule and scope. Missing modules, wrong revisions, names, unresolved or cyclic imports, duplicate implemented revisions and malformed library
  data are refused with the documented error.""",
  ["configurations"],
  "random module sets with several revisions, submodules (each belonging to one listed module revision), import graphs, search paths (earlier directories win) and file-name styles, and corruptions of them",
  "Module-set resolution has a few fixed negative tests; import graphs and revision choices are unbounded.",
  ["schemadata.py", "datamodel.py", "statement.py"],
  [("module loading, import and include processing", "schemadata.py")],
  ["DataModel constructor"])

p("P26", "A validation error names the offending node and the broken rule",
  """When a document breaks exactly one rule, the error raised identifies that node by a path that leads to it and carries the
  error tag and class prescribed for the rule (or declared in the schema together with the message), for every kind of rule; if it breaks several, the error fits one of them.
  Missing data are reported at the parent (or the incomplete list), and a raw-data error gives the path of the offending member or value.""",
  ["inputs"],
  "valid documents of generated schemas with one or more injected violations of known kinds at known places, in JSON and XML",
  "Tests check the error class for a dozen fixed violations, seldom its location.",
  ["schemanode.py", "exceptions.py", "instance.py", "datatype.py"],
  [("error construction", "schemanode.py"), ("exception messages", "exceptions.py")],
  ["exceptions raised by DataModel.from_raw and validate"])

p("P27", "Obsolete nodes are gone, deprecated ones may be missing, nothing else changes",
  """A schema with obsolete nodes behaves as the schema without them, in validation, defaults, digest and state roots, unless the library data keep the obsolete nodes of
  their module, in which case they are ordinary nodes. Deprecated nodes may be missing even if they are mandatory, but are otherwise like current ones. The tree shows
  every node with its status label, and the status of a grouping or augment changes no other node.""",
  ["inputs", "configurations"],
  "generated schemas with statuses on nodes of every kind and any nesting, random sets of modules whose obsolete nodes are kept, documents with and without such nodes",
  "Tests use one obsolete leaf and one deprecated container.",
  ["schemanode.py", "schemadata.py"],
  [("status handling", "schemanode.py"), ("keep-obsolete flag", "schemadata.py")],
  ["InstanceNode.validate", "InstanceNode.add_defaults", "DataModel.schema_digest", "DataModel.ascii_tree"])

p("P28", "The meaning of a module does not depend on how it is written",
  """Rewriting the modules of a schema with their statements in another order, other prefixes, extension statements, descriptions and references, unused groupings, typedefs,
  features and extensions, other quoting, comments and white space, part of their statements moved to submodules, or their entries of the library data in another order
  leaves the data model the same: the same schema digest and tree (up to the order of siblings), the same state roots, the same verdict on every document and the
  same defaults.""",
  ["inputs", "configurations"],
  "generated schemas of one to three modules with groupings, augments, choices, identities, defaults and XPath expressions, random rewritings of their text, valid and invalid documents",
  "Tests have one text of every module.",
  ["schemadata.py", "statement.py", "schemanode.py"],
  [("prefix resolution", "schemadata.py"), ("statement lookup", "statement.py"), ("building of the schema", "schemanode.py")],
  ["DataModel.schema_digest", "DataModel.ascii_tree", "DataModel.from_raw", "InstanceNode.validate", "InstanceNode.add_defaults"])

p("P29", "Timestamps record the last modification",
  """Every instance node has a timestamp. After any sequence of edits and moves, the timestamp of a node that was modified, and of each of its ancestors, is not earlier
  than the last modification in it; it is not later than the last modification of its parent's content, so moving around and reading does not change timestamps, and
  putting an old value back counts as a modification.""",
  ["histories"],
  "random sequences of edits (put, update, delete, insert, restoring an older value) and moves applied to any node obtained so far, on generated schemas and documents",
  "Two doctests compare the timestamps of a value and its copy.",
  ["instance.py", "instvalue.py"],
  [("timestamps of nodes", "instance.py"), ("timestamps of values", "instvalue.py")],
  ["InstanceNode.timestamp", "InstanceNode.update", "InstanceNode.up"])

p("P30", "Schema nodes have the properties their definitions give them",
  """Every schema node reports what its definition gives it: name, namespace, qualified name, data path and route, configuration and content type, mandatory state,
  presence, list keys, cardinality, order, units, default, status, NACM deny flag and children, wherever in groupings, augments and deviations the definition is.
  A detached instance made from a schema node has the same value, pointer names and members as the attached one.""",
  ["inputs"],
  "generated schemas with groupings, augments, choices, typedefs, NACM extensions and every kind of node, whose nodes are all visited; random documents whose nodes are all detached",
  "Tests look at attributes of about ten nodes of one schema.",
  ["schemanode.py", "instance.py", "schemadata.py"],
  [("schema node classes", "schemanode.py"), ("orphan instances", "schemanode.py")],
  ["SchemaNode attributes and methods", "DataModel.get_schema_node", "DataModel.get_data_node", "SchemaNode.orphan_instance"])

p("P31", "Names, prefixes and definitions are resolved where they are used",
  """Every prefix, prefixed name, module identifier, namespace and reference to a typedef, grouping, identity or feature is resolved to the thing that the module, submodule
  or revision in which it is used has under that name, in the innermost enclosing scope; references that don't resolve raise the documented exceptions.
  Definitions found are the very statements of the module revision that was imported.""",
  ["inputs", "configurations"],
  "random sets of modules with several revisions, submodules and imports by name or by revision with any prefixes, nested definitions that shadow others, existing and nonexistent names",
  "Tests resolve half a dozen names in one set of modules.",
  ["schemadata.py", "statement.py"],
  [("SchemaData methods", "schemadata.py"), ("definition lookup", "statement.py")],
  ["DataModel.schema_data", "SchemaData.resolve_prefix", "SchemaData.resolve_pname", "SchemaData.translate_pname", "SchemaData.get_definition"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
import jsonschema
sch = "/root/.vp/PROPERTIES.schema.json"
if pathlib.Path(sch).exists():
    s = json.load(open(sch))
    for x in P:
        jsonschema.validate(x, s)
        assert len(x["title"]) <= 80, x["title"]
print(len(P))
