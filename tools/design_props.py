T = {
"P01": ("random schemas (all statement kinds, augments and uses with `when`, choices in choices, case shorthand, min/max-elements, presence, mandatory, config false); valid documents from `DataGen`, then 0–4 mutations (drop, add, switch case, duplicate, cut entries, bad value, unknown member)",
 "reference validator `Model.violations` written from RFC 7950 §3–8: verdict (accept/refuse) and exception class for config and all content, plus repeated validation",
 "a wrong derivative of a schema pattern shows only for particular orders of members and combinations of optional, mandatory and conditional siblings"),
"P02": ("three schema profiles: must/when expressions; leafref and instance-identifier; keys, unique (with defaults, nested descendants) and leaf-lists. Documents start structurally valid and get values duplicated, targets removed, operands altered",
 "same reference validator (its XPath part is `vf/rxpath.py`); declared error-app-tag and error-message of the failed must",
 "collisions depend on the values, the defaults in use and the entry positions"),
"P03": ("typed leaves: every built-in type with chains of up to 4 typedefs, restrictions at each step, unions of unions; candidates at, next to and far from every bound, of every JSON type, and mutated lexical forms (leg text: `parse_value` and XML text)",
 "`vf/rtypes.py`: value space computed independently (interval algebra, Python-translated patterns, base64, derived identities); declared error tag and message of the failed restriction",
 "restrictions intersect along the chain; only boundaries decide"),
"P04": ("accepted values of the same type definitions, with all lexical spellings; enumerations and bits with explicit and implicit numbers; defaults written in several spellings",
 "round trips raw→cooked→raw, cooked→XML→cooked, canonical→parse, plus the canonical form prescribed by RFC 7950 §9 and the reference numbering",
 "one lossy value is enough, e.g. a double with 17 digits, a union member order, an escaped character"),
"P05": ("valid documents incl. RPC input and output and notifications, respelled (redundant prefixes, member order, non-canonical values)",
 "document normalised by the reference (qualified names, canonical values) = dump; second dump identical; dump of each subtree = part of the whole",
 "renaming at module borders and per-kind losses need multi-module documents"),
"P06": ("documents with prefix-valued types (identityref, instance-identifier) and every text content; library's XML and XML written by the reference in another style (prefixes, order, comments, CDATA, entities, white space); random XML texts",
 "equal trees after the round trip; names, namespaces and canonical text computed by the reference; xml.etree's own parser for the parser leg",
 "namespaces and white space matter only for particular documents"),
"P07": ("default-rich schemas (type, leaf, leaf-list, choice defaults; when; NP containers; both content types), documents with nodes removed",
 "reference completion from RFC 7950 §7; tags; original unchanged; idempotence; inside operations too",
 "which default is in use depends on cases, conditions and presence together"),
"P08": ("histories of up to 60 moves and edits, each applied to any of the nodes obtained so far",
 "model: plain nested structure with a focus path; after each step the whole tree, path, index, key names; all retained nodes keep their value; documented exception on impossible steps, with nothing changed",
 "aliasing between versions needs old nodes to be edited again"),
"P09": ("pairs of documents sharing content, merged at any node, raw and cooked",
 "reference merge; receiver and argument unchanged; self and empty merges are neutral",
 "entry matching depends on the overlap"),
"P10": ("families of documents: equal by construction (permuted, rebuilt, re-edited, other time stamps) or one change apart; all pairs, all value types; edit histories",
 "equality of canonical content; != negates; hashes agree; dictionary/set use; copies",
 "weak comparisons collide for unlucky pairs only"),
"P11": ("all nodes of list-rich documents with keys of every type and hostile text; addresses spelled several ways; altered addresses",
 "the node found has the path, value and route of the original; altered addresses judged by a reference resolver (found / nothing / refused)",
 "quoting, percent-encoding and key order go wrong for particular values"),
"P12": ("typed random expressions (all operators, functions, axes, node tests, YANG functions) at random context nodes",
 "`vf/rxpath.py`, an evaluator written from XPath 1.0 and RFC 7950 §10 on its own tree; compares type, value and node-set in document order",
 "the rules have to compose; tests have some sixty fixed expressions"),
"P13": ("expression trees printed with random white space, abbreviations and quoting; damaged texts",
 "`vf/rxparse.py`, an independent recogniser; printed form re-parses, prints alike and evaluates alike",
 "tokenisation ambiguities (operator names as node names, `*`, dots) are combinatorial"),
"P14": ("statement trees with random spellings (quoting, concatenation, indentation trimming, comments), damaged texts; header names and revisions",
 "the generated tree; an independent strict parser for the damaged texts; documented exceptions",
 "lexical space is unbounded"),
"P15": ("expressions over features of up to three modules under random feature sets; if-feature on every definition kind; enum/bit numbering under features",
 "Boolean evaluation; reference schema with the removed definitions; refused malformed texts and prerequisite failures",
 "2^n sets times expressions"),
"P16": ("identity DAGs over modules and submodules, implemented and import-only; questions in random order, repeated",
 "transitive closure; identityref acceptance in JSON and XML; derived-from XPath functions",
 "closures and query order"),
"P17": ("a flat schema and the same schema after random factoring (grouping, refine, augment, submodule, typedef, deviation, shorthand case)",
 "metamorphic: same digest, tree, defaults and verdicts on documents as the flat one",
 "factoring steps combine without limit"),
"P18": ("every data node's paths, altered paths, digest, tree, state roots, counters, module set id",
 "the generated schema tree",
 "lookups interact with choices, cases, augments"),
"P19": ("query histories on one model; permuted documents; pickled models; processes with other hash seeds",
 "the same query asked of a freshly built model (differential), or of the permuted document",
 "hidden state shows only under particular histories"),
"P20": ("arbitrary and mutated JSON, XML, addresses, expressions, if-feature texts, module texts, library data and edit arguments",
 "accepted or a documented exception with printable message; time limit per case",
 "unexpected shapes are unbounded"),
"P21": ("typed annotations (conditional on features too) on random nodes; wrong names, types and places; edits",
 "dump equals the reference; verdicts, defaults, addresses and XML are those of the document without metadata; wrong ones refused",
 "metadata must be carried everywhere"),
"P22": ("random decisions before/after for the nodes of documents, JSON and XML",
 "reference pruning and the recorded sequence of calls",
 "nesting of rejections"),
"P23": ("models, broken models and documents, all options, in-process and as a real process",
 "library verdict and outputs; exit codes of the manual page",
 "nothing tests the tool"),
"P24": ("RFC 8525 documents with several module-sets, schemas, datastores; corruptions; loaded results",
 "reference conversion as sets; model built from the result",
 "no tests exist"),
"P25": ("directories of module files with revisions, submodules, imports, decoys; every definition marked with its origin; corruptions",
 "marks seen through the model = marks of the listed files; documented exceptions",
 "import graphs are unbounded"),
"P26": ("documents with injected violations of known kinds at known places (structure, semantics, values, XML, operations)",
 "the reference's list of violations (kind, path, tag, message): the error must be one of them",
 "location errors are invisible in verdicts"),
"P27": ("schemas with statuses on random nodes, groupings and augments, kept modules; documents with and without obsolete nodes",
 "the reference model of the schema without the obsolete nodes (verdict, defaults, digest, state roots), the schema itself for the tree",
 "status interacts with choices, mandatory propagation, defaults"),
"P28": ("generated schemas written plainly and rewritten: statement order, prefixes, extensions, descriptions, unused definitions, quoting, comments, submodules, order of the library",
 "metamorphic: same digest, tree, state roots, verdicts and defaults as the plain text",
 "a name looked up in the wrong place, or the first of two statements taken, shows only in other spellings"),
"P29": ("histories of edits, restorations and moves on persistent trees; every node, its ancestors and their members after each step",
 "the clock read before and after every edit: each timestamp must lie between the last edit in the node and the last edit in its parent",
 "a modification lost on the way up, or made up by a move, needs several steps"),
"P30": ("schemas with every kind of node, groupings, augments, typedefs, choices and NACM extensions; documents of them",
 "the generator's own definition of each node, with inheritance of configuration and status; for detached instances, the attached ones",
 "attributes are combined from several definitions (grouping, refine, augment, type), and most are read by client code only"),
"P31": ("sets of modules with revisions, submodules, imports and nested definitions; names that exist and names that don't",
 "an independent resolver over the generated sets: the statement found must be the one at the expected position of the expected file",
 "with one revision per module and one definition per name every wrong resolution finds the right thing"),
}
