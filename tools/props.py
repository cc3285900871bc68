"""The texts of all properties. tools/gen.py writes properties.jsonl and MANIFEST.json from them.

id -> dict(title, statement, over, q, tests, files, mech, tech, note)"""
P = {}


def prop(id, title, statement, over, q, tests, files, mech, tech, note):
    P[id] = dict(title=title, statement=statement, over=over, q=q, tests=tests, files=files, mech=mech, tech=tech, note=note)


PR = ["src/printer.rs"]
TECH_P = "abstract interpretation of the resolved MIR: symbolic text summaries of every printing path compared with required token sequences"
NOTE_P = "Sound for all inputs and option sets relative to the transfer functions of the standard library; modular over the recursive types, loops closed by range terms."

prop(
    "C10", "Printing keeps every statement, once and in order",
    "The text printed for a graph, a subgraph or a statement list contains every statement of the list exactly once, in the order of the list, inside one pair of braces after the header of the block that owns it. "
    "Edges contain every end point exactly once in order, and nothing that is not part of the value appears between them. "
    "This holds whatever the printing options are.",
    ["inputs", "configurations"], "All graphs (any nesting, any number and kind of statements) and all option combinations of the printing context.",
    "The tests compare a few small graphs in the default and inline modes; the claim is about every statement list and every option set.",
    PR, [{"name": "statement list printing", "where": "src/printer.rs impl DotPrinter for Vec<Stmt>"}, {"name": "block printing", "where": "src/printer.rs impl DotPrinter for Subgraph / Graph"}, {"name": "edge printing", "where": "src/printer.rs print_edge"}],
    TECH_P, NOTE_P)
prop(
    "C11", "Printing keeps every attribute of every element, once and in order",
    "The attributes of a node, an edge or a graph/node/edge default statement are printed inside one pair of brackets, each exactly once as `name=value`, in order, after the element that carries them. "
    "A default statement (`graph`, `node`, `edge`) keeps its brackets when the list is empty, because the bare keyword is not a statement; a node or an edge without attributes prints no brackets. "
    "This holds for one-line and one-per-line attribute styles and every other option.",
    ["inputs", "configurations"], "All attribute lists of any length on all kinds of carriers, and all option combinations.",
    "The tests sample lists of one or two attributes in two styles.",
    PR, [{"name": "attribute list", "where": "src/printer.rs impl DotPrinter for Vec<Attribute>"}, {"name": "default statements", "where": "src/printer.rs impl DotPrinter for GraphAttributes"}, {"name": "carriers", "where": "src/printer.rs impl DotPrinter for Node, print_edge"}],
    TECH_P, NOTE_P)
prop(
    "C12", "The header and the edge operators printed match the kind of the graph",
    "A printed graph starts with `strict` exactly when the graph is strict, then `digraph` or `graph` according to its kind, then its id. "
    "Every edge in it, at any depth of nesting, is printed with `->` in a directed graph and `--` in an undirected one, also when the same printing context printed a graph of the other kind before.",
    ["inputs", "histories", "configurations"], "All graphs, all nestings of subgraphs and edges, all sequences of uses of one context, all options.",
    "The tests print one graph per context with edges at one or two levels.",
    PR, [{"name": "graph header", "where": "src/printer.rs impl DotPrinter for Graph"}, {"name": "edge operator", "where": "src/printer.rs print_edge, PrinterContext.is_digraph"}],
    TECH_P, NOTE_P)
prop(
    "C13", "Identifiers, ports and attribute values are printed verbatim",
    "Identifiers (plain, quoted, HTML) are printed exactly as they are stored, without added or lost characters; an anonymous identifier prints nothing. "
    "A node reference prints its id and then `:port`, `:port:compass` or `:compass` exactly for the parts that are present, each compass direction by its DOT name.",
    ["inputs", "configurations"], "All identifier texts, all port combinations, all compass directions, all options.",
    "The tests use short ASCII identifiers and a few ports.",
    PR, [{"name": "identifiers", "where": "src/printer.rs impl DotPrinter for Id / Port / NodeId / Attribute"}],
    TECH_P, NOTE_P)
prop(
    "C14", "Printing never fuses neighbouring tokens",
    "In the printed text no two neighbouring pieces (identifiers, keywords, statements, attributes) run into each other so that a DOT reader would see one token or one statement where the value has two. "
    "In particular statements printed without a line separator stay separated from each other.",
    ["inputs", "configurations"], "All pairs of neighbouring elements, for all values and all option combinations including one-line output.",
    "One-line output is compared with a handful of strings; fusions show only for particular neighbours.",
    PR, [{"name": "separators", "where": "src/printer.rs impl DotPrinter for Vec<Stmt> / Vec<Attribute> / Edge / Graph"}],
    TECH_P + "; neighbour analysis on every concatenation", NOTE_P)
prop(
    "C15", "Printing leaves the printing context as it found it",
    "After printing any element, with any options, the context has the options it was configured with, the indentation and the line mode it had before. "
    "Printing the same element again, or another one, with the same context gives the text a fresh context with the same options would give.",
    ["inputs", "histories", "configurations"], "All elements, all option sets, all sequences of prints on one context.",
    "The tests rarely print twice with one context and never look at the state left behind.",
    PR, [{"name": "indentation", "where": "src/printer.rs PrinterContext::indent_grow / indent_shrink and their callers"}, {"name": "line mode", "where": "src/printer.rs PrinterContext::inline_mode / multiline_mode, impl DotPrinter for Edge"}],
    TECH_P + "; exit state of the context compared with its entry state on every path", NOTE_P)
prop(
    "C16", "Every printing option does what it says, and only that",
    "The options of the printing context (one-line output, semicolons, attributes on separate lines, without commas, indent step, line separator, maximum inline length) govern the layout exactly as documented: a semicolon after every statement iff asked for, a separate line with the indentation of the nesting depth for every statement and, iff asked for, every attribute, an edge on one line iff it fits the inline length. "
    "A context built from explicit parameters starts in the same modes as the default context. No option changes the tokens printed apart from its own separators.",
    ["inputs", "configurations", "histories"], "All combinations and orders of the option builders, all elements, all depths.",
    "The tests exercise single options on single graphs.",
    PR, [{"name": "option builders", "where": "src/printer.rs impl PrinterContext"}, {"name": "layout", "where": "src/printer.rs all DotPrinter implementations"}],
    TECH_P + "; layout variables kept in the terms", NOTE_P)
prop(
    "C17", "Custom attribute value printers are applied exactly where registered",
    "An attribute whose name has a registered value printer is printed as its name, `=`, and what that printer returns for the printed value, the line separator, the indentation and the indent step in force. "
    "Every other attribute is printed with its own value, and every registered printer keeps working when more are registered.",
    ["inputs", "configurations"], "All attribute names and values, all sets of registered printers, all layout options.",
    "One test registers one printer.",
    PR, [{"name": "value printers", "where": "src/printer.rs impl DotPrinter for Attribute, PrinterContext::with_attr_value_printer"}],
    TECH_P, NOTE_P)
prop(
    "C18", "Printing never panics",
    "Printing any graph or part of one with any context that can be built through the public interface terminates without a panic. "
    "This includes values the parser never makes: edge chains without end points, ports without parts, empty lists, an indent step of zero.",
    ["inputs", "configurations"], "All values of the public types (exhausted memory, address space and stack depth aside) and all contexts.",
    "The tests never print degenerate values.",
    PR, [{"name": "no unguarded unwrap/index/subtraction", "where": "src/printer.rs all DotPrinter implementations and PrinterContext methods"}],
    "abstract interpretation of the resolved MIR: reachability of every panic site under the path facts", NOTE_P)
prop(
    "C19", "Printing is a pure function of the value and the options",
    "The text printed depends on nothing but the element printed and the options of the context: not on the environment, time, randomness, hash order, global state or files. "
    "Printing has no effect besides its result and the state of the context it is given.",
    ["inputs", "configurations", "schedules"], "All elements, contexts, environments and threads.",
    "A test cannot see a dependency on state it does not vary.",
    PR, [{"name": "no ambient calls", "where": "src/printer.rs everything reachable from DotPrinter::print"}],
    "effect analysis over the call graph reachable from printing (resolved MIR)", "Decides the absence of ambient reads and effects in the reachable code of this crate; library callees by an effect table.")

CM = ["src/cmd.rs", "src/lib.rs"]
TECH_C = "abstract interpretation of the resolved MIR with every fallible call split: ordered effects and results of all paths"
NOTE_C = "All paths of exec/exec_dot for all texts and argument lists, relative to documented behaviour of std::process and tempfile; what the external program does is outside."

prop(
    "C20", "A run of Graphviz succeeds exactly when the program does",
    "Running Graphviz returns the bytes the program wrote to standard output exactly when the program was started and exited with status zero. "
    "If it exited with another status or was killed by a signal, an error of kind `Other` that carries what it wrote to standard error is returned; if it could not be started, or the temporary file could not be made or written, that I/O error is returned. "
    "No outcome makes the call panic.",
    ["inputs", "fault_sequences"], "All texts, argument lists, exit statuses and failures of the operating system on the way.",
    "One test runs a missing output directory; exit by signal, failing temporary files and a missing program are never produced.",
    CM, [{"name": "outcome mapping", "where": "src/cmd.rs exec"}, {"name": "program start", "where": "src/cmd.rs do_exec"}, {"name": "temporary file", "where": "src/cmd.rs temp_file"}],
    TECH_C, NOTE_C)
prop(
    "C21", "The temporary input file is complete, lives long enough and never stays",
    "The program is started only after the whole text has been written to a fresh temporary file made for this call, and the file is not changed or removed before the program has finished. "
    "Whatever fails or succeeds, the file is removed before the call returns, and nothing else is written to the file system.",
    ["inputs", "fault_sequences", "schedules"], "All texts and argument lists, all failures at any step, any number of concurrent calls.",
    "Tests cannot see partial writes, leftovers after failures or premature removal.",
    CM, [{"name": "temporary file", "where": "src/cmd.rs temp_file"}, {"name": "life time", "where": "src/cmd.rs exec"}],
    TECH_C + "; typestate of the temporary file", NOTE_C)
prop(
    "C22", "Command line arguments reach Graphviz one for one and in order",
    "The program `dot` is started with exactly one argument for each argument given, in the given order, followed by the path of the temporary file, and with an otherwise unchanged environment and working directory. "
    "A custom argument is passed unchanged, an output file as `-o` directly followed by the path given, a layout as `-K` and a format as `-T` directly followed by its name.",
    ["inputs"], "All argument lists of any length and content.",
    "One test passes two arguments and only looks at the failure.",
    CM, [{"name": "argument text", "where": "src/cmd.rs CommandArg::prepare"}, {"name": "argument order", "where": "src/cmd.rs exec, do_exec"}],
    TECH_C, NOTE_C)
prop(
    "C23", "Every layout and output format is passed by its Graphviz name",
    "Each layout engine and each output format of the public enumerations is passed to the program by the name under which Graphviz documents it. "
    "Different layouts or formats are passed by different names.",
    ["inputs"], "All values of the two public enumerations.",
    "One format is used in a test.",
    CM, [{"name": "names", "where": "src/cmd.rs CommandArg::prepare, enum Layout, enum Format"}],
    "abstract interpretation of the resolved MIR, all variants enumerated, compared with the documented names", "Complete enumeration of the variants; the reference table of names is part of the check.")
prop(
    "C24", "Only the execution functions touch the system",
    "Running Graphviz on a graph is running it on the text the given context prints for that graph. "
    "No other function of the library starts processes or touches files, environment variables, the network, the clock or the standard streams, and without the execution feature no function does.",
    ["inputs", "configurations", "programs"], "All public functions, all inputs, both feature configurations.",
    "A test cannot show the absence of effects; the build without the feature is not tested.",
    CM + ["Cargo.toml"], [{"name": "entry points", "where": "src/lib.rs exec, exec_dot, print, parse"}, {"name": "feature gate", "where": "src/lib.rs mod cmd"}],
    "effect analysis over the call graph of the resolved MIR, in both feature configurations; path-set equality of the two entry points", "Calls through user-supplied closures are outside; library callees by an effect table.")

ST = ["dot-structures/src/lib.rs"]
TECH_S = "abstract interpretation of the resolved MIR on symbolic values, every path compared with the required value"

prop(
    "C25", "Building a graph value keeps what is put in",
    "Adding a statement to a graph or a subgraph appends it after the statements that are there and changes nothing else: not the id, the strictness, the kind or the other statements. "
    "Converting a node, an edge, an attribute, default attributes or a subgraph to a statement, and a node id or a subgraph to an edge end point, wraps exactly that value. "
    "A node made from an id and attributes has that id and those attributes, in order. Default attributes made from one of the words graph, node or edge, in any letter case, are those of that kind with the attributes given; for any other text, and only then, the call panics.",
    ["inputs", "histories"], "All graphs, subgraphs and statements, all sequences of additions, all texts.",
    "dot-structures has no tests of its own; no test elsewhere adds a statement to an existing graph.",
    ST, [{"name": "appending", "where": "dot-structures/src/lib.rs Graph::add_stmt, Subgraph::add_stmt"}, {"name": "conversions", "where": "dot-structures/src/lib.rs impl From for Stmt, Vertex"}, {"name": "default attributes", "where": "dot-structures/src/lib.rs GraphAttributes::new"}],
    TECH_S, "All inputs and paths, relative to the documented behaviour of Vec and String. The root crate builds against the published copy of this package, so it does not see changes here.")
prop(
    "C30", "Values are equal exactly when all their parts are; a clone is equal",
    "Two values of a type of the language compare equal exactly when they are of the same variant and all their fields are equal: texts byte for byte, lists element by element in order, and ids also by their kind. "
    "A clone of a value consists of the same parts as the value.",
    ["inputs"], "All pairs of values of the public structures.",
    "Tests use equality to compare expected and parsed values, so a too generous equality makes them pass rather than fail.",
    ST, [{"name": "equality", "where": "dot-structures/src/lib.rs PartialEq of all structures"}, {"name": "clone", "where": "dot-structures/src/lib.rs Clone of all structures"}],
    TECH_S, "All paths of every comparison and clone function, modular over nested types of the crate.")

PA = ["src/parser.rs", "src/grammar/dot.pest"]
TECH_Q = "abstract interpretation of the MIR of the parse functions over symbolic grammar pairs; exact comparison of the grammar with a reference grammar"
NOTE_Q = "For all texts, relative to the semantics of the pest library. Functions: every path, any number of repetitions. Grammar: parsing expressions compared as languages, exact below 150000 states per unit; nested blocks and tags by induction."
QT = "The tests parse some twenty texts."

prop(
    "C01", "Parsing never panics",
    "Parsing any text returns either a graph or an error message; it never panics. In particular every way a text can match the grammar is handled by the code that builds the graph: no part it expects can be missing and no kind of part is unforeseen.",
    ["inputs"], "All texts (exhausted memory and stack depth aside).", QT + " A panic needs a combination of parts that they lack.",
    PA, [{"name": "entry point", "where": "src/parser.rs parse"}, {"name": "building", "where": "src/parser.rs process_* and their unwrap / unreachable sites"}],
    TECH_Q + "; reachability of every panic site", NOTE_Q)
prop(
    "C02", "Parsing keeps every statement, once, in order and in its block",
    "The statements of the parsed graph, and of each subgraph at any depth, are the statements between the braces of that block in the text: each exactly once, in the order of the text and each of the kind the text has (node, edge, attribute, default attributes, subgraph). "
    "Optional semicolons, white space and comments make no difference.",
    ["inputs"], "All texts of the language, any number of statements, any nesting.", QT,
    PA, [{"name": "blocks", "where": "src/parser.rs process_body, process_stmt, process_subgraph, process_graph"}, {"name": "statement alternatives", "where": "src/grammar/dot.pest body, stmt"}],
    TECH_Q, NOTE_Q)
prop(
    "C03", "Parsing keeps every attribute, once and in order, with its carrier",
    "The attributes of a parsed node, edge or default statement are those written in the brackets after it, each exactly once with its own name and value, in the order of the text. "
    "Several bracket lists in a row make one list. Commas and semicolons between attributes are optional. A default statement belongs to the kind its keyword names, in any letter case.",
    ["inputs"], "All attribute lists of any length and number on all carriers.", QT,
    PA, [{"name": "attribute lists", "where": "src/parser.rs process_attr_list, process_bare_attr"}, {"name": "default statements", "where": "src/parser.rs process_attr_stmt"}, {"name": "rules", "where": "src/grammar/dot.pest attr_list, attr, bare_attr, attr_stmt"}],
    TECH_Q, NOTE_Q)
prop(
    "C04", "Parsing keeps every end point of an edge, in order",
    "A parsed edge has the end points of the edge statement in the text, each exactly once and in order. With two end points it is a pair, with more it is a chain. "
    "End points may be nodes, with or without port, and subgraphs, in every position.",
    ["inputs"], "All edge statements with any number and kind of end points.", QT,
    PA, [{"name": "edges", "where": "src/parser.rs process_edge, process_edge_stmt, process_vertex"}, {"name": "rules", "where": "src/grammar/dot.pest edge_stmt, edge, edge_tail, vertex"}],
    TECH_Q, NOTE_Q)
prop(
    "C05", "The header of the text decides strictness, direction and name of the graph",
    "A parsed graph is strict exactly when the text starts with `strict`, directed exactly when its keyword is `digraph`, and has the id the text gives it, all keywords in any letter case. "
    "Where the text gives a graph no id it gets an anonymous one.",
    ["inputs"], "All headers: every combination of strictness, kind, letter case, id and white space.", QT,
    PA, [{"name": "header", "where": "src/parser.rs process_graph"}, {"name": "rules", "where": "src/grammar/dot.pest graph, graph_ty, strict"}],
    TECH_Q, NOTE_Q)
prop(
    "C06", "Identifiers are parsed verbatim and by their kind",
    "An identifier written as a word or a numeral becomes a plain id, one in double quotes a quoted id and one in angle brackets an HTML id, with exactly the text of the source, quotes and brackets included. "
    "A quoted id ends at the first quote without a backslash, an HTML id at the bracket that matches its first, a word at the first character that is neither letter, digit nor underscore. A subgraph without an id gets an anonymous one.",
    ["inputs"], "All identifiers of all kinds, in all positions, with all neighbours.", QT,
    PA, [{"name": "identifiers", "where": "src/parser.rs process_id"}, {"name": "rules", "where": "src/grammar/dot.pest id, plain, number, html, string_qt"}],
    TECH_Q, NOTE_Q)
prop(
    "C07", "A port is split into its id and its compass point as DOT defines",
    "In `node:a` the port is the compass point a if a is one of n, ne, e, se, s, sw, w, nw, c and _ written as a plain word, and otherwise the port id a. In `node:a:b` the port id is a and the compass point b. Without a colon there is no port. "
    "A compass point is a whole word: `node:north` has the port id north.",
    ["inputs"], "All node references with all port texts.", QT,
    PA, [{"name": "ports", "where": "src/parser.rs process_port, parse_compass_manually, process_node_id"}, {"name": "rules", "where": "src/grammar/dot.pest port, compass, node_id"}],
    TECH_Q, NOTE_Q)
prop(
    "C08", "Every text of the DOT language is accepted",
    "Every text that the DOT language allows is parsed: all forms of identifiers, statements, attribute lists, edges and subgraphs, keywords in any letter case, white space and comments between any two tokens. "
    "An error is returned only if the grammar does not match.",
    ["inputs"], "All texts of the language as vp/dot.ref.pest states it (one graph per text; adjacent strings are not concatenated, see the known finding).", QT,
    PA, [{"name": "grammar", "where": "src/grammar/dot.pest"}, {"name": "entry point", "where": "src/parser.rs parse, do_parse"}],
    "exact language inclusion between parsing expression grammars, by derivatives over BDDs; abstract interpretation of `parse`", NOTE_Q)
prop(
    "C09", "A text that is not DOT is rejected as a whole",
    "A text outside the DOT language is an error: unbalanced braces, brackets, quotes or tags, missing parts, keywords run into other words, anything left over after the closing brace. "
    "No part of such a text is dropped to make the rest fit. (Known findings: keywords as ids, and the edge operator of the other kind of graph, are not rejected.)",
    ["inputs"], "All texts outside the language as vp/dot.ref.pest states it.", "No test parses an invalid text.",
    PA, [{"name": "grammar", "where": "src/grammar/dot.pest"}, {"name": "entry point", "where": "src/parser.rs parse, do_parse"}],
    "exact language inclusion between parsing expression grammars, by derivatives over BDDs; abstract interpretation of `parse`", NOTE_Q)

prop(
    "C32", "Parsing time does not explode with the nesting of the text",
    "However deeply blocks, subgraphs used as end points or html tags are nested in a text, valid or not, each of them is read at most once for each time the one around it is read, so the time to parse it is polynomial in the length of the text, not exponential in the depth. "
    "The grammar does not try a block or a tag a second time at the same place, nor go on to one further on after one has failed; no part of the parsed text that may contain blocks is converted twice; no part of the text is parsed again.",
    ["inputs"], "All texts, of any depth, accepted or rejected.", "The tests nest three levels deep at most, where an exponent does not show.",
    PA, [{"name": "choices between statements", "where": "src/grammar/dot.pest stmt, vertex, body"}, {"name": "conversions", "where": "src/parser.rs process_body, process_subgraph, process_vertex, process_stmt, process_edge"}],
    "recursion multiplicity of a parsing expression grammar by derivatives over BDDs; abstract interpretation of the MIR of the parse functions counting conversions per pair",
    "For all texts: every choice, sequence and repetition of the grammar whose parts can both reach a block (or a tag) is explored exactly for a text and a place both try. Conversions: every path of every function, any number of repetitions. Polynomial, not linear: white space and ids may still be read a bounded number of times.")

MA = ["dot-generator/src/lib.rs"]
prop(
    "C26", "Every builder macro builds the value its arguments state",
    "Each documented form of the macros port!, id!, node_id!, attr!, stmt!, attrs!, subgraph!, node!, edge! and graph! compiles with any expressions of the right types as arguments and gives the value that the structures of the language have for it: "
    "the id of the kind its prefix says with exactly the text given, the port, the end points and the kind and strictness of the graph as given, and every attribute and statement once and in the order given. "
    "Every argument is evaluated exactly once.",
    ["inputs", "programs"], "All documented forms of the macros, all argument expressions, lists of any length.",
    "The tests use some forms with literals as arguments and lists of at most three; forms that do not compile with other arguments stay unseen.",
    MA, [{"name": "ids and attributes", "where": "dot-generator/src/lib.rs id!, node_id!, attr!, port!"}, {"name": "nodes and edges", "where": "dot-generator/src/lib.rs node!, edge!"}, {"name": "blocks", "where": "dot-generator/src/lib.rs subgraph!, graph!, attrs!, stmt!"}],
    "witness crate generated from the documented forms, expanded and type-checked by the compiler; equivalence of the resolved MIR with the value spelled out, by abstract interpretation",
    "All texts and values as arguments; lists up to one longer than any arm can tell apart; argument expressions of the witnessed shapes. The root crate builds against the published copy of this package.")

AM = ["src/attributes/mod.rs", "src/attributes/generate.rs"]
prop(
    "C27", "Attribute functions give the attribute of their name with the value given",
    "Each attribute function (NodeAttributes::shape, EdgeAttributes::arrowsize and all the others) and each conversion of an attribute type gives an attribute whose name is the Graphviz name of the function or type and whose value is the text of the argument: "
    "a text unchanged, a number and a truth value as Rust displays them, an enumeration value as its Graphviz word. Different values of an enumeration give different words. No call panics and the name and the value are each one DOT identifier.",
    ["inputs"], "All attribute functions and conversions with all arguments: all texts, all numbers, every value of every enumeration.",
    "The tests call a few of about 500 functions with one value each.",
    AM, [{"name": "generating macro", "where": "src/attributes/generate.rs generate_attr!"}, {"name": "attributes", "where": "src/attributes/mod.rs"}],
    "abstract interpretation of the resolved MIR of every generated function and conversion, all variants split",
    "Complete over functions and variants. Texts given by the caller are taken as they are: whether they are DOT identifiers is up to the caller. The derive and id!/attr! are the published copies that the root crate builds against.")
prop(
    "C28", "The derive makes an attribute of any type it supports",
    "IntoAttribute can be derived for every newtype around a displayable value and every enumeration of unit variants, whatever their names. The derived conversion gives an attribute called like the type, "
    "whose value is the display text of the field, or the name of the variant without the one trailing underscore that keeps it from being a Rust keyword.",
    ["inputs", "programs"], "All names of types and variants, all displayable fields, all values.",
    "Two types are derived in the tests, with one value each.",
    ["into-attr-derive/src/lib.rs"], [{"name": "derive", "where": "into-attr-derive/src/lib.rs derive_into_attribute"}],
    "witness crate with derived types of all shapes; equivalence of the resolved MIR of each derived conversion with the value spelled out, by abstract interpretation",
    "All values and fields; names of the witnessed shapes. The root crate builds against the published copy of the derive.")
prop(
    "C29", "Attributes have the names, carriers, words and defaults Graphviz documents",
    "Every attribute the library offers exists in Graphviz under that name and is offered only for the kinds of elements (graph, cluster, node, edge) that carry it there. Every value of an enumerated attribute is a word Graphviz knows for it, "
    "and every default is the documented one, written as a DOT identifier.",
    ["inputs"], "All attribute functions, types, enumeration values and defaults of the library.",
    "No test compares the tables with the Graphviz documentation.",
    AM[:1], [{"name": "attributes", "where": "src/attributes/mod.rs"}],
    "enumeration over the type-checked program: names, carriers and variants from the type tables, words and defaults by abstract interpretation of their MIR, compared with the documented tables",
    "Complete over the library. The documented tables are vp/attrs_ref.py; attributes Graphviz has and the library lacks are not reported.")

prop(
    "C31", "A graph that is printed and parsed again is the same graph",
    "Whatever the context, parsing the text printed for a graph gives an equal graph: the same kind, strictness and name, the same statements in the same order and nesting, the same end points, ports and attributes, and every id verbatim and of its kind. "
    "This holds for graphs the DOT language can express: ids are valid texts of their kind and no keywords, compass points are those of DOT, a port named like a compass point comes with one, a chain has three end points or more, and no value printer is registered. Anonymous ids stay anonymous (the parser draws a new name).",
    ["inputs", "configurations"], "All such graphs, of any size and nesting, and all contexts with a line separator of white space.",
    "No test prints a graph and parses the result.",
    PR + PA, [{"name": "printing", "where": "src/printer.rs all DotPrinter implementations"}, {"name": "parsing", "where": "src/parser.rs, src/grammar/dot.pest"}],
    "composition: symbolic text summaries of every printing path (as for C10-C14) with the structures made from every parse tree and the exact comparison of the grammar (as for C01-C08)",
    "For all graphs and contexts stated. That the two comparisons meet (the tokens required of the printer are those the structures are unparsed to) is argued in DESIGN.md, not checked.")
prop(
    "C33", "Printing time does not explode with the nesting of the graph",
    "However deeply subgraphs are nested, in statements or as end points of edges, each of them is printed at most once for each time the one around it is printed, so the time to print is polynomial in the size of the graph and not exponential in its depth. "
    "An edge may be printed a second time to fit on one line only in a mode from which no part is printed twice again.",
    ["inputs", "configurations"], "All graphs of any depth and all contexts.", "The tests nest two levels deep at most, where an exponent does not show.",
    PR, [{"name": "one line or several", "where": "src/printer.rs DotPrinter for Edge, print_edge"}, {"name": "blocks", "where": "src/printer.rs DotPrinter for Subgraph, Vec<Stmt>, Stmt, Graph"}],
    "abstract interpretation of the resolved MIR counting the prints of each part per path; cycles of the graph of printing modes",
    "All paths of every implementation in every context that can be built; parts in loops by their index terms. Polynomial, not linear.")
prop(
    "C34", "No depth of nesting exhausts the stack",
    "Parsing, printing, comparing, cloning and dropping succeed for texts and graphs of any nesting depth.",
    ["inputs", "configurations"], "All texts and graphs of any depth, all threads with their stack sizes.", "The tests nest three levels deep at most.",
    PA + PR, [{"name": "recursion", "where": "src/grammar/dot.pest body, src/parser.rs process_stmt, src/printer.rs DotPrinter for Subgraph"}],
    "", "")

# ---- properties no static rule decides ------------------------------------
NA = {
    "C34": "every one of these operations recurses once per level, as the data does, so whether the stack suffices depends on the size of the stack and of the frames at run time; no static argument bounds the depth of the input (the call graph is cyclic by design)",
}
