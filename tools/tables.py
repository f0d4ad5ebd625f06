"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS

E = "crates/hcl-edit/src/"
R = "crates/hcl-rs/src/"
PR = "crates/hcl-primitives/src/"
P = []
NA = {}


def prop(id, title, statement, over, text, why, files, mech, observe, note, tech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a}, note, tech))


prop("P01", "Encoding an unmodified document reproduces its text",
     "A document, expression or template that was parsed and not modified is written back byte for byte, comments, whitespace and number spelling included. "
     "Only spellings are normalised: escape sequences, raw line breaks and control characters in quoted strings, CRLF line ends of structures and object items, tabs which indent flush heredocs, and repeated object keys. "
     "Whatever is written parses again to the same syntax tree.",
     ["inputs"], "every text the parser accepts, for documents, expressions and templates",
     "The round-trip tests use a few dozen documents; the guarantee is about every placement of trivia in every construct, nested arbitrarily.",
     [E + "encode/", E + "parser/", E + "repr.rs", E + "raw_string.rs"],
     [("decorated()/prefix_decorated() keep trivia", E + "parser/trivia.rs"), ("despan turns spans into text", E + "repr.rs"), ("Encode impls", E + "encode/mod.rs")],
     ["str::parse::<Body|Expression|Template>()", "to_string()"],
     "every token sequence up to length 2 (3 in the thorough tier) over three token alphabets, random documents with random trivia and mutants of them; the grammar theory is checked by TLC for all token sequences up to length 3",
     "TLC: executable TLA+ grammar and encoder; encodings recorded from hcl-edit validated against it")
prop("P02", "Parsing yields the syntax tree the grammar assigns to the text",
     "An accepted text denotes exactly one syntax tree: operator precedence and left associativity, literal against identifier against call against traversal, escape sequences, template elements, heredoc contents, labels and body nesting are as the HCL native syntax defines them.",
     ["inputs"], "every text the parser accepts",
     "Tests assert trees for selected snippets; interactions (operators in conditionals in templates in heredocs in objects) are unbounded.",
     [E + "parser/"], [("recursive descent with operator reduction", E + "parser/expr.rs"), ("template parsers", E + "parser/template.rs"), ("structures", E + "parser/structure.rs")],
     ["str::parse()", "public fields and accessors of the syntax tree"],
     "as P01; the oracle is an independent executable grammar in TLA+",
     "TLC: executable TLA+ grammar; recorded syntax trees validated against it")
prop("P03", "Exactly the texts of the grammar are accepted and nothing panics",
     "A text is accepted if and only if the HCL grammar derives it, and every other text is rejected with an error. No text makes the parser panic or run forever.",
     ["inputs"], "all texts of bounded nesting depth, in particular malformed ones",
     "Negative tests list some 25 malformed inputs; the space of malformed inputs is unbounded.",
     [E + "parser/"], [("cut errors and alternatives", E + "parser/expr.rs"), ("body loop, duplicate attributes", E + "parser/structure.rs")],
     ["Ok/Err of str::parse()", "panics"],
     "all token sequences up to length 2 (thorough: 3) plus random sequences up to length 7, random documents and two mutants of each",
     "TLC: executable TLA+ grammar decides acceptance; recorded verdicts validated against it")
prop("P04", "Decor and spans attach to the right node",
     "Every comment and whitespace run is attached as prefix or suffix of exactly the syntax node the grammar says it surrounds, and the span of every node covers exactly its own text in bytes.",
     ["inputs"], "every accepted text, for every node of its tree",
     "Span tests look at a handful of nodes of three documents; round trips do not reveal decor that sits on the wrong node.",
     [E + "parser/trivia.rs", E + "parser/repr.rs", E + "repr.rs", E + "parser/"],
     [("decorated, prefix_decorated, suffix_decorated, spanned", E + "parser/repr.rs"), ("Span/Decorate impls", E + "repr.rs")],
     ["decor(), span() of every node"],
     "as P01, on full trees with decor and byte spans",
     "TLC: TLA+ grammar with decor and spans; recorded trees validated against it")
prop("P05", "Parse errors point at the place where parsing stopped",
     "A rejected text yields an error whose offset, line number, column (in characters) and quoted line all describe one and the same position of the text, and this is the position at which the text stopped being derivable when the parser was committed to an alternative. "
     "The message shows this position: the line quoted with a mark under the column, whichever way the text was read.",
     ["inputs"], "every rejected text, including multi-byte characters, several lines, CRLF and unexpected ends",
     "A dozen snapshots of error messages on short ASCII input.",
     [E + "parser/error.rs", E + "parser/"], [("locate_error", E + "parser/error.rs"), ("cut_err/context", E + "parser/expr.rs")],
     ["Error::location(), Error::line(), Error::message(), its text", "hcl::parse, from_str, from_slice"],
     "as P03; exact positions are required where parsing is committed, for other failures any position up to the failure is accepted",
     "TLC: TLA+ grammar with failure positions; recorded error locations validated against it")

prop("P06", "Body modifications have exactly their documented effect",
     "Every sequence of modifications of a body (push, insert, remove, extend, clear, attribute and block access, labels, decor, layout flags) leaves the structures in the documented order with the documented results; "
     "adding through the checked interface never defines an attribute twice and leaves the body unchanged when refused; untouched structures keep their text including comments; "
     "the document written after modifications which respect the syntax parses to exactly the modified tree.",
     ["histories", "inputs"], "all sequences of modifications of all documents",
     "Tests apply a handful of edits to two documents; the guarantee is about arbitrary histories on arbitrary decorated documents.",
     [E + "structure/", E + "encode/structure.rs"], [("duplicate check in try_push/try_insert/extend", E + "structure/body.rs"), ("AttributeMut and friends", E + "structure/mutation.rs"), ("decor defaults when writing", E + "encode/structure.rs")],
     ["Body methods' results", "Body iteration", "to_string()"],
     "all 5000 histories of length 2 (thorough: model 3, 150000 histories) over a palette of 32 operations on 6 documents, replayed through the code, plus 900 random histories a run (thorough: 6000) of 3 to 7 operations on random documents",
     "TLC: TLA+ transition system of edits; its behaviours replayed through the code and random recorded histories validated against it",
     [("Body.structures", "ordered structures of a body", E + "structure/body.rs"), ("Decor", "comments and whitespace of a node, possibly unset", E + "repr.rs")])
prop("P07", "Modifications of expressions have exactly their documented effect",
     "Every sequence of modifications of arrays, function arguments, objects, templates, heredocs and numbers inside of a document has the documented effect and results: objects keep insertion order and the first spelling of a key, "
     "removal returns what was stored, a modified number is written with its new value; everything else is written as before, and documents modified within the syntax parse to exactly the modified tree.",
     ["histories", "inputs"], "all sequences of modifications of all expressions",
     "Tests cover single edits of small expressions; stale representations or lost decor only show in particular sequences.",
     [E + "expr/", E + "template/", E + "encode/"], [("Object on VecMap, ObjectKeyMut", E + "expr/object.rs"), ("Formatted.repr", E + "repr.rs"), ("trailing commas and expand_final", E + "expr/array.rs")],
     ["methods' results", "iteration", "to_string()"],
     "as P06, with palettes for objects, arrays and calls (2500 histories) and for templates, heredocs and directives (8400), and random histories for every expression kind",
     "TLC: TLA+ transition system of edits; its behaviours replayed through the code and random recorded histories validated against it",
     [("Object.items", "insertion-ordered entries", E + "expr/object.rs"), ("Formatted.repr", "spelling of a number", E + "repr.rs")])

prop("P09", "Formatted text means what was formatted",
     "Formatting a body, expression, template or value with any configuration yields text which parses to the same tree: only the spelling of object keys and numbers and superfluous template syntax may differ. "
     "Strings of values which contain templates are written as these templates.",
     ["inputs", "configurations"], "all trees which parsing can yield, with arbitrary strings and keys, all values, under all formatter configurations",
     "The formatter tests compare some twenty documents with their expected text; whether every text survives depends on escaping, keys, heredocs and layout at the same time.",
     [R + "format/", R + "util.rs", PR + "template.rs"],
     [("Format impls", R + "format/impls.rs"), ("Formatter state", R + "format/mod.rs"), ("escape_markers/escape_string", R + "format/escape.rs")],
     ["hcl::format::{to_string,to_vec,to_writer}", "Format::format", "str::parse()"],
     "random documents, expressions, templates (nesting up to 3) with replaced strings, and random values, under random configurations, with fresh and with reused formatters",
     "TLC: TLA+ grammar and tree projection; text recorded from the formatter is parsed by the specification and compared with the formatted tree")
prop("P10", "The layout of formatted text is determined by the configuration",
     "Formatted text is laid out exactly as configured: indentation by nesting level, one item per line or compact arrays and objects, blank lines around blocks unless dense, key spelling, compact contexts of calls and conditionals; "
     "the result does not depend on the interface used or on what a formatter wrote before.",
     ["inputs", "configurations", "histories"], "all trees, configurations and prior uses of a formatter",
     "Tests cover each option on one document; the options interact with nesting and with one another.",
     [R + "format/"], [("FormatState transitions", R + "format/mod.rs"), ("format_array/format_object", R + "format/impls.rs"), ("with_compact_mode", R + "format/mod.rs")],
     ["hcl::format::{to_string,to_vec,to_writer}", "Format::{format,format_string,format_vec}", "Display impls"],
     "as P09", "TLC: TLA+ layout rules; recorded text compared with the text the specification writes",
     [("FormatState", "what was written last", R + "format/mod.rs"), ("current_indent, compact_mode", "nesting", R + "format/mod.rs")])
prop("P21", "hcl-edit and hcl-rs trees convert into each other faithfully",
     "Converting a syntax tree of hcl-edit to hcl-rs keeps everything but decor and representation, in order, with templates as their text and heredocs with their flush mode; converting back yields the tree with the same contents and no decor.",
     ["inputs"], "all syntax trees",
     "Conversions are only tested through a few parsed documents; a lost flag or swapped operand in a rare node is not seen.",
     ["crates/hcl-rs/src/expr/edit.rs", "crates/hcl-rs/src/structure/edit.rs", "crates/hcl-rs/src/template/edit.rs"],
     [("From<edit::…> impls", "crates/hcl-rs/src/expr/edit.rs")],
     ["From/Into between hcl::edit and hcl types", "hcl::parse()"],
     "random documents, expressions and templates with replaced strings",
     "TLC: TLA+ projection between the two kinds of trees; recorded conversions validated against it")
prop("P24", "Constructed syntax trees are written as text with the same meaning",
     "A syntax tree of hcl-edit all of whose decor is unset, as built in code or converted from hcl-rs, is written with default whitespace such that the text parses to the same tree.",
     ["inputs"], "all syntax trees without decor",
     "Default decor is chosen per construct; missing whitespace between two tokens only shows for particular neighbours.",
     [E + "encode/"], [("default decor of each construct", E + "encode/mod.rs"), ("escaping modes", E + "encode/template.rs")],
     ["to_string() of constructed trees", "str::parse()"],
     "as P21", "TLC: TLA+ encoder and grammar; recorded text compared with the specification's and parsed again")

prop("P18", "Numbers are exact 64-bit integers or the closest finite floats",
     "A number is an integer of 64 bits (signed or unsigned) or a finite binary64 float, equal values being the same number whichever way they were obtained. Literals denote the closest such number; integer operations are exact and become the closest float out of range; float operations round correctly; "
     "comparison is the numeric order, equal numbers have equal hashes, accessors never lose precision silently, numbers print in the shortest form that denotes them, and no operation panics, wraps or yields a non-finite number.",
     ["inputs"], "all pairs of numbers, all operators, all number literals",
     "Tests try two dozen small operands; errors sit at the borders of the integer ranges, at rounding ties and with mixed operands.",
     [PR + "number.rs", R + "eval/impls.rs", E + "parser/number.rs"],
     [("N::from_finite_f64, from_i128, coerce", PR + "number.rs"), ("evaluate_binop", R + "eval/expr.rs")],
     ["Number's operators, comparisons, hash, accessors, Display and serde", "evaluation of operators", "str::parse::<Expression>()"],
     "random operands concentrated at borders (powers of two, neighbours, subnormal numbers, ties), 900 pairs, 300 floats and 450 literals per run (thorough: 8000 pairs)",
     "TLC: exact arithmetic with arbitrary precision and IEEE rounding in TLA+; recorded results compared with it")

prop("P14", "Expressions evaluate to the value the HCL specification assigns",
     "Evaluating an expression or body in a context yields exactly the value of HCL: variables of the innermost scope, operators on their operand types only, conditionals only their chosen branch, traversals and both splats, for expressions over arrays and objects with filters, grouping and duplicate key errors, templates with one interpolation their value. "
     "Otherwise the error has the right kind and operands and names the expression it arose in, and its text says all this; nothing panics.",
     ["inputs"], "all expressions and bodies and all contexts",
     "Tests evaluate a handful of expressions of each kind; the rules interact with nesting, scopes, null and mixed types.",
     [R + "eval/"], [("Evaluate impls", R + "eval/impls.rs"), ("Context::lookup_var, child scopes", R + "eval/mod.rs"), ("evaluate_traversal, evaluate_attr_splat", R + "eval/expr.rs")],
     ["Evaluate::evaluate", "Error::{kind, expr}"],
     "random typed and ill-typed expressions of nesting up to 4 in random contexts, about 2600 a run (thorough: 16000)",
     "TLC: big step semantics in TLA+; recorded results and errors compared with it",
     [("Context", "variables, functions, parent scope and the expression evaluated", R + "eval/mod.rs")])
prop("P15", "Function calls check their arguments before the function runs",
     "A call evaluates its arguments in order, expands the last one if asked to, and invokes the function of that (namespaced) name exactly if number and types of the arguments fit its definition, with positional and variadic arguments told apart; otherwise it fails, naming the function and the first argument that does not fit, with the type it should have had.",
     ["inputs", "configurations"], "all function definitions, all argument lists",
     "Tests define a few functions; parameter types nest and combine with variadic parameters and expansion.",
     [R + "eval/func.rs", R + "eval/expr.rs"], [("FuncDef::call, ParamType::is_satisfied_by", R + "eval/func.rs"), ("evaluate_func_args", R + "eval/expr.rs")],
     ["FuncDef::builder", "Context::define_func", "Evaluate::evaluate", "FuncArgs"],
     "a dozen fixed and random definitions (up to 3 parameters, nested types, variadic or not, namespaced and redefined names) called with fitting and unfitting arguments",
     "TLC: TLA+ typing and call rules; recorded results compared with them")
prop("P16", "Templates render to the text the HCL specification assigns",
     "Evaluating a template, quoted template or heredoc renders literals, interpolations and directives in order, `~` removing the whitespace next to it up to and including one line break, on exactly the side it stands; a template which is one interpolation yields its value, and every other value is written as an expression.",
     ["inputs"], "all templates and contexts",
     "Strip markers interact with the neighbouring literals of nested directives; tests try single markers.",
     [R + "eval/template.rs", R + "template/", PR + "template.rs"], [("evaluate_element, strip handling", R + "eval/template.rs")],
     ["Evaluate::evaluate for Template, TemplateExpr", "hcl::template::Template::from_expr"],
     "random templates (nesting up to 3, all markers, line ends CR LF and LF)",
     "TLC: TLA+ rendering rules; recorded text compared with them")
prop("P17", "Evaluation in place evaluates what it can and reports everything else",
     "Evaluating in place replaces every expression which can be evaluated by its value and leaves the others as they are, with their parts evaluated; every part that failed is reported exactly once, in order, also in the text of the report, and evaluation in place succeeds exactly if nothing failed, then yielding what plain evaluation yields.",
     ["inputs"], "all expressions, bodies and templates and all contexts",
     "Tests have one example with two errors; which parts are evaluated and reported depends on the kind of every enclosing node.",
     [R + "eval/impls.rs", R + "eval/mod.rs"], [("evaluate_in_place impls", R + "eval/impls.rs"), ("EvalResultExt::add_errors", R + "eval/error.rs")],
     ["Evaluate::evaluate_in_place", "Errors"],
     "as P14, P15 and P16",
     "TLC: TLA+ rules of partial evaluation; recorded trees and lists of errors compared with them")

prop("P08", "Visitors reach every node once, in order",
     "Visiting a tree calls the method for every node exactly once, a node before its parts and the parts in the order of the text; a method which does not go on hides exactly the parts of its node. "
     "A mutable visitor sees the same nodes except keys of attributes and objects, which it cannot change; one which overrides nothing leaves the tree as it is, one which changes leaves changes those and nothing else.",
     ["inputs", "programs"], "all syntax trees, all visitors",
     "Tests visit two documents with one overridden method; a part which is not visited only shows for that kind of node.",
     [E + "visit.rs", E + "visit_mut.rs"], [("default methods", E + "visit.rs"), ("StructureMut, ObjectKeyMut", E + "visit_mut.rs")],
     ["Visit, VisitMut", "visit_* functions"],
     "random documents, expressions and templates (nesting up to 4), visitors which record everything, stop at a random node, change every leaf, or override nothing",
     "TLC: TLA+ definition of the sequence of visits and of the changed tree; recorded calls compared with it")

prop("P12", "Documents map to values as in the JSON syntax of HCL",
     "Every document has exactly one plain value: attributes under their name, blocks under their identifier and labels, blocks of the same name and labels as one object or a list of objects in order, whatever comes between them, the last use of a name counting when it stands for different things. "
     "Literals keep their value, strings and templates their text, and all other expressions become templates of their text. "
     "Value::from, Expression::from and every way to deserialize a text, reader, slice or tree give this same value; object keys are strings, and only arrays and objects as keys are refused.",
     ["inputs"], "all documents and expressions, parsed and constructed",
     "Tests convert a handful of documents with one or two blocks; merging depends on which names, labels and structures are combined, and in which order.",
     [R + "structure/json_spec.rs", R + "structure/de.rs", R + "expr/de.rs", R + "expr/mod.rs", R + "value/de.rs"],
     [("IntoJsonSpec, JsonNode::deep_merge", R + "structure/json_spec.rs"), ("Deserializer for Expression and ObjectKey", R + "expr/de.rs"), ("From<Expression> for Value", R + "expr/mod.rs")],
     ["Value::from(body)", "hcl::from_str::<Value>", "hcl::from_body", "serde_json::Value"],
     "all documents of up to 3 (thorough: 4, specification only) structures out of a pool of 10 which differ in kind, name and labels, replayed through the code; random documents with few names and random expressions",
     "TLC: TLA+ definition of the mapping, whose guarantees are checked over all small documents; values from the code compared with it")

prop("P11", "Serialization writes exactly what the data say, or refuses",
     "Whatever a program serializes, the document, expression, value and text all show the same data: fields and map entries become attributes in order, data marked as blocks become blocks with the identifier, labels and bodies they were marked with, enums are tagged by their variant, and expressions, structures and identifiers of the crate stay what they are; data which are flattened into others, or have their tag inside, are what they say together. "
     "Data which a document cannot represent, such as names which are no identifiers or blocks made of scalars, are refused, never written as something else. All ways to serialize agree, and serializers of other formats see plain data.",
     ["inputs", "programs"], "all data of the data model of serde, with and without block markers",
     "Tests serialize about thirty structs; what is written depends on how markers, enums, options and sequences nest, and on every name.",
     [R + "ser/", R + "structure/ser/", R + "expr/ser/", R + "value/ser.rs"],
     [("LabeledBlock, block, doubly_labeled_block", R + "ser/blocks.rs"), ("BlockSerializer, StructureSerializer", R + "structure/ser"), ("ExpressionSerializer, ObjectKeySerializer", R + "expr/ser/mod.rs"), ("internal names $hcl::*", R + "ser/mod.rs")],
     ["to_string, to_vec, to_writer, Serializer", "Body::from_serializable", "Expression::from_serializable", "to_value", "serde_json::to_value"],
     "all data built in three steps (thorough: four, specification only) out of ten, with their shapes, replayed through the code; 4000 random data of nesting up to 4 a run (thorough: 30000)",
     "TLC: TLA+ definition of what data become; documents, texts, expressions and values from the code compared with it")
prop("P13", "Data read back are the data written, whatever their type",
     "Reading a document, expression or value as a type yields data exactly if its parts have the form the type asks for, and then these data: numbers which fit exactly, enums by their tag, options, newtypes, tuples, maps with keys of any scalar type, structs with missing options, expressions, calls, operations and other nodes as the types of the crate for them, unchanged; otherwise an error, never a panic or a changed value. What other formats describe, with variants told by name or number and structs as maps or lists, is read the same way. "
     "Reading what was serialized yields the same data, and all ways to read agree.",
     ["inputs", "programs"], "all types built from those of the data model of serde, all documents, expressions and values",
     "Tests read a dozen types; deserializers of documents, expressions, keys and values are separate code for every kind of type.",
     [R + "de/mod.rs", R + "expr/de.rs", R + "structure/de.rs", R + "value/de.rs"],
     [("Deserializer for Expression", R + "expr/de.rs"), ("Deserializer for ObjectKey", R + "expr/de.rs"), ("ValueDeserializer", R + "value/de.rs"), ("Deserializer", R + "de/mod.rs")],
     ["from_str, from_slice, from_reader, from_body, from_value, Deserializer", "Deserialize for Expression"],
     "all data built in three steps (thorough: four, specification only) with their types, replayed through the code; nested blocks, 1200 random types and data a run (thorough: 24000), also read as slightly different types; 250 random expressions and bodies (thorough: 10000) with all their parts read as each type of the crate; 500 from another format (thorough: more)",
     "TLC: TLA+ definition of what types read; that it undoes serialization is checked over all small data; data read by the code compared with it")
prop("P19", "Names are identifiers, wherever they come from",
     "A text is an identifier exactly if it starts with a letter or underscore and continues with letters, digits, marks, underscores and dashes, as Unicode classifies them; every way to make an identifier accepts exactly these texts unchanged, the parser reads exactly these as names in every place a name can have (except words with another meaning there), and sanitizing turns every text into the closest identifier and leaves identifiers alone. "
     "Strings inside identifiers stay what they are through all conversions.",
     ["inputs"], "all texts over all Unicode characters, all constructors, conversions, deserializers and places of documents",
     "Tests look at a dozen names; the guarantee is about all 1.1 million characters and a dozen places which classify them in separate code.",
     [PR + "ident.rs", PR + "internal_string.rs", R + "ident.rs", R + "expr/variable.rs", E + "parser/string.rs", E + "parser/"],
     [("is_id_start, is_id_continue, is_ident", PR + "ident.rs"), ("new_sanitized", PR + "ident.rs"), ("str_ident", E + "parser/string.rs"), ("InternalString", PR + "internal_string.rs")],
     ["Ident, Identifier, Variable and their constructors", "names in parsed trees"],
     "all texts of up to three characters of ten kinds and the reserved words (thorough: four, specification only) replayed through the code; all characters of Unicode in runs, both ends of each read; 3000 random texts a run (thorough: 40000)",
     "TLC: that the TLA+ grammar reads exactly the identifiers as names is checked over all small texts; names made and read by the code compared with the definition")
prop("P20", "Every text can be written as a string and read back",
     "Escaping and unescaping of template markers are inverse to each other, escaped text contains no marker, and text without markers is text wherever a template is expected. "
     "Whatever a string contains, written as quoted string, template literal, heredoc, label, object key, attribute or value it is read back unchanged, evaluates to itself and never becomes an interpolation or directive; a value is written as a template only if it is one.",
     ["inputs"], "all texts",
     "Round trips of strings are tested on a handful of texts; injection bugs need specific successions of $, %, { and quotes, at specific positions.",
     [PR + "template.rs", E + "encode/mod.rs", E + "encode/template.rs", R + "format/", R + "util.rs", E + "parser/string.rs"],
     [("escape_markers, unescape_markers", PR + "template.rs"), ("encode_escaped", E + "encode/mod.rs"), ("write_quoted_string_escaped", R + "format/mod.rs"), ("is_templated", R + "util.rs"), ("literals", E + "parser/string.rs")],
     ["escape_markers, unescape_markers", "to_string, format::to_string, parse of strings", "Template::from_str, evaluate"],
     "all 7381 texts of up to four out of nine special characters, replayed through the code (thorough: 177156 of up to five out of eleven in the specification); 4000 random texts a run (thorough: 40000)",
     "TLC: inverseness and reading back are checked in TLA+ over all small texts; texts escaped, written and read by the code compared with it")
prop("P22", "hcl2json prints exactly the JSON of its inputs, or fails",
     "For every set of files and every combination of options, hcl2json prints exactly the JSON of the documents given: of a single file or stdin the document itself, of several paths or directories an array in the order of the paths, with files below directories that match the pattern in depth-first order of names, or an object keyed by path; compact or pretty texts differ in whitespace only; and simplification changes only what can be evaluated without variables. "
     "Anything that cannot be read makes it fail with nothing printed, or, when it shall continue, is left out with a warning, however many threads are at work.",
     ["inputs", "configurations", "schedules"], "all file trees, documents, paths, patterns and options",
     "The program has no tests at all; what it prints depends on the combination of options, kinds of paths and failures, with files read in parallel.",
     ["crates/hcl2json/src/main.rs"],
     [("main", "crates/hcl2json/src/main.rs"), ("bulk_convert", "crates/hcl2json/src/main.rs"), ("glob_files", "crates/hcl2json/src/main.rs"), ("read_hcl", "crates/hcl2json/src/main.rs")],
     ["stdout, stderr and exit code of hcl2json"],
     "all 4368 calls with up to two of nine paths, three patterns and all options on a small tree (thorough: three paths, specification only), made for real; 2000 random calls on 400 random trees a run (thorough: 20000 on 4000), with one to four threads",
     "TLC: relations between calls are checked on the TLA+ definition of the program; exit codes, output and warnings of real runs compared with it")
prop("P23", "Macros make exactly the trees and values that their tokens describe",
     "expression!, value!, body!, structure!, attribute!, block! and object! make the tree or value which their tokens describe: literals, names, expressions of Rust and nested brackets and braces at any depth, with and without trailing commas, with keys that are names, literals or expressions in parentheses, attributes and blocks with any labels in order; names that are not identifiers are sanitized, and a key which is given again gets the last value at its first place.",
     ["inputs"], "all invocations that compile, of every macro",
     "The macros are token munchers with one arm for each combination of tokens at the front; tests cover one invocation for some arms, and a defect shows only for particular successions of tokens at particular places.",
     [R + "macros.rs"],
     [("expression_internal!", R + "macros.rs"), ("value_internal!", R + "macros.rs"), ("body_internal!, structure!, block_internal!", R + "macros.rs"), ("object keys", R + "macros.rs")],
     ["expression!, value!, body!, structure!, attribute!, block!"],
     "all 995 invocations of up to four tokens (thorough: up to five in the specification), and 250 random invocations a run (thorough: 1500) with nested brackets and braces, compiled and run; expressions of several tokens are followed by a comma in objects, as the macros require",
     "TLC: invocations are generated from a TLA+ reading of the tokens, compiled against the code and run; what they make is checked against it")
prop("P25", "Syntax trees are equal exactly if they differ in nothing but layout",
     "Two documents, expressions or templates compare as equal exactly if they have the same nodes with the same contents; decor around nodes, positions in the text, the spelling of numbers and layout preferences make no difference, everything else does: names, literals, operators, modes of for expressions and function calls, strip markers, heredoc delimiters and indents, the order of structures and items, and punctuation that the trees record. "
     "Comparison is symmetric, and clones are equal to what they were cloned from.",
     ["inputs", "histories"], "all pairs of syntax trees, parsed or modified",
     "Tests use equality to compare everything else, but nothing tests equality: a field that is left out or a condition that is too weak makes tests pass more easily, and shows only for trees that differ in just this field.",
     [E + "expr/", E + "structure/", E + "template/mod.rs", E + "repr.rs"],
     [("PartialEq impls", E + "expr/for_expr.rs"), ("PartialEq for FuncArgs", E + "expr/func_call.rs"), ("PartialEq for HeredocTemplate", E + "template/mod.rs"), ("PartialEq for Block", E + "structure/block.rs"), ("PartialEq for Decorated, Formatted, Spanned", E + "repr.rs")],
     ["==, != and Clone of Body, Expression and Template"],
     "14000 pairs a run (thorough: 110000): random trees against their mutants in the text, and against copies with one random change at one random node of 45 kinds",
     "TLC: TLA+ definition of what makes trees different; pairs of trees from the code, with how the code compares them, checked against it")
prop("P26", "Builders and conversions make exactly the nodes that are asked for",
     "A node of hcl-rs that is built step by step consists of exactly what the steps add or set, in the order of the steps: for expressions, function calls, traversals, operations, templates and directives, heredocs, attributes, blocks and bodies. A step changes nothing but its own part, what is set twice is what was set last, and ways to do the same (one by one or many at a time, constructor or builder, any of the accepted types) make the same node. "
     "Conversions of Rust values (integers of all types, floats, texts, lists, maps, numbers, values, labels) make the expression, value or syntax tree of exactly that value.",
     ["inputs", "histories"], "all sequences of builder steps on all nodes, and all values of the convertible types",
     "Tests build a handful of nodes and compare few of them; a step that overwrites, drops or reorders what an earlier step added, or a conversion that is off for a boundary value, needs a sequence or value that no test has.",
     ["crates/hcl-rs/src/structure/", "crates/hcl-rs/src/expr/", "crates/hcl-rs/src/template/mod.rs", "crates/hcl-rs/src/value/from.rs", E + "expr/mod.rs"],
     [("BlockBuilder", "crates/hcl-rs/src/structure/block.rs"), ("BodyBuilder", "crates/hcl-rs/src/structure/body.rs"), ("ForExpr::with_key_var ...", "crates/hcl-rs/src/expr/for_expr.rs"), ("FuncCallBuilder", "crates/hcl-rs/src/expr/func_call.rs"), ("TraversalBuilder", "crates/hcl-rs/src/expr/traversal.rs"), ("IfDirective, ForDirective", "crates/hcl-rs/src/template/mod.rs"), ("From impls", "crates/hcl-rs/src/value/from.rs")],
     ["builders, constructors, From, FromIterator and Extend of Body, Block, Attribute, Expression, Value, Template"],
     "all 9409 sequences of up to three steps after the first (thorough: five), 2500 random sequences of up to eight steps with random contents, and 5800 converted values a run (thorough: 30000 and 60000)",
     "TLC: sequences of steps are generated from a TLA+ specification of the builders and done with the code; what they make is checked against it")
prop("P27", "Nodes say what they are, and iterators hand out exactly their items",
     "A node answers for what it is: of the questions what kind of node it is, exactly the one for its kind is answered with yes, and accessors, of one kind or another and mutable or not, hand out its content exactly if the node is of the kind asked for; names, keys, labels and identifiers are handed out as the text they are, and getting the content out of a node by value gives it all. "
     "An iterator over the structures of a body, or over only its attributes or only its blocks, hands out exactly those, each once, in order from the front and in reverse from the back, whatever mix of calls is made, says never to have fewer or more items left than it has, and hands out nothing once it is through; mutable and consuming iterators do the same.",
     ["inputs", "histories"], "all nodes and all sequences of calls to their iterators",
     "Tests ask a node or two what they are and iterate from front to back; an iterator that loses an item when called from both ends, or an accessor that answers for the wrong kind, needs a mix of calls or a kind that no test has.",
     ["crates/hcl-rs/src/structure/", "crates/hcl-rs/src/expr/", "crates/hcl-rs/src/value/mod.rs", E + "structure/", E + "expr/"],
     [("Body::{iter, attributes, blocks, into_*, *_mut}", "crates/hcl-rs/src/structure/body.rs"), ("iterators", "crates/hcl-rs/src/structure/iter.rs"), ("Structure::{is_*, as_*, into_*}", "crates/hcl-rs/src/structure/mod.rs"), ("Value::{is_*, as_*}", "crates/hcl-rs/src/value/mod.rs"), ("Expression::{is_*, as_*}", E + "expr/mod.rs")],
     ["accessors and iterators of hcl::{Body, Structure, Value, ...} and hcl_edit::{structure, expr}"],
     "all 5820 sequences of up to three calls on bodies of up to three structures (model, thorough: four), 1500 random sequences of calls, and 6000 random nodes asked everything a run (thorough: more)",
     "TLC: sequences of calls are generated from a TLA+ specification of the iterators and made in the code; what is handed out, and what nodes answer, is checked against it")

prop("P28", "The outcome of a call depends on its data, not on other calls",
     "What is serialized, converted or formatted depends on the data of the call alone: not on the calls made before, whether they succeeded, failed or panicked, nor on the serializers which are running while it is made, nor on what implementations called by it call themselves. "
     "A serializer or formatter used for several documents writes them one behind the other like the one document with all their structures, and begins a new one once the text was taken out; calls which fail leave nothing behind.",
     ["histories", "programs"], "all histories of calls, nested or not, with failures and panics at any point",
     "Parts of documents are handed to the serializer under a flag which belongs to the thread; tests make one call each, and no implementation in them calls a serializer, fails or panics.",
     [R + "ser/mod.rs", R + "expr/mod.rs", R + "structure/body.rs", R + "value/mod.rs", R + "format/mod.rs"],
     [("with_internal_serialization, in_internal_serialization, InternalHandles", R + "ser/mod.rs"), ("to_value", R + "value/mod.rs"), ("Format::format_vec", R + "format/mod.rs")],
     ["to_string, to_vec, to_writer, to_value, to_expression", "Serializer::{serialize, serialize_string, serialize_vec}", "Format::{format, format_string, format_vec}"],
     "all 24280 histories of four actions (thorough: five, specification only): serializers called, by the program or within another one, caught or not, parts of documents written, failures and panics, replayed through the code; 1500 random histories of up to five calls a run (thorough: 15000)",
     "TLC: the machine of nested calls with the flag is checked for all small histories, which are replayed through the code; outcomes compared with the TLA+ definition of what data become")
prop("P29", "Streams carry exactly the document, or fail",
     "Reading from a reader or bytes gives what reading the text gives which the bytes encode in UTF-8, and fails exactly if they encode none or the reader fails, however the reader divides them and however often it is interrupted. "
     "What is written to a writer is the text of the document from its first byte to its last, in order and nothing twice, however few bytes the writer takes at a time; if it fails or takes no more, the call fails, having written the beginning of the text, and does not go on.",
     ["inputs", "schedules", "fault_sequences"], "all byte strings and documents, all readers and writers",
     "Tests read from slices and write to vectors, which never divide, interrupt or fail.",
     [R + "de/mod.rs", R + "ser/mod.rs", R + "format/mod.rs"],
     [("from_reader, from_slice", R + "de/mod.rs"), ("to_writer", R + "ser/mod.rs"), ("Formatter::write_bytes", R + "format/mod.rs")],
     ["from_reader, from_slice", "to_writer, format::to_writer, Serializer::new, Formatter::new, FormatterBuilder::build"],
     "all schedules of readers and writers for six documents (whole, cut off and wrong) with up to one interruption and a failure at any point (thorough: two), replayed through the code; 800 random documents a run, most with unusual or wrong bytes, read and written with random schedules in four and five ways (thorough: 8000)",
     "TLC: the machine of streams and a machine decoding UTF-8 are checked for all small byte strings and schedules, which are replayed through the code; recorded calls of readers and writers checked as traces of it")

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p, _, _ in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p, note, tech in P:
        i = p["id"]
        if i in CHECKS:
            checks.append({"property": i, "quick_cmd": f"./check.py {i} quick", "thorough_cmd": f"./check.py {i} thorough",
                           "technique": tech, "level": CHECKS[i].get("level", "model_checking"),
                           "level_note": "Bounded: " + note + ". Trusts TLC, the TLA+ modules as the reading of HCL, and the harness that projects values onto records."})
        else:
            na.append({"property": i, "reason": NA.get(i, "check under construction")})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo are needed: everything is observed through the public interface."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, ensure_ascii=False, indent=1)
        f.write("\n")
