T = "crates/brack-tokenizer/src/"
P = "crates/brack-parser/src/"
X = "crates/brack-transformer/src/"
PROPS = [
 dict(id="C01", title="Tokenization loses, adds and reorders nothing",
  statement="For every text, given as such or in a file, tokenization succeeds and the tokens, written back in order, are exactly the text, character for character. There is exactly one end-of-file token, it is last, and no word token is empty.",
  over=["inputs"], text="every Unicode text: any length, scripts, control characters, combining marks, LF and CRLF",
  why="The tests tokenize about a dozen fixed ASCII documents and compare token lists; a character dropped only next to an unusual neighbour, or only in long or NUL-bearing text, is never met.",
  files=[T+"dispatch.rs",T+"tokenize.rs",T+"text.rs",T+"utils.rs"],
  mech=[("dispatch picks the rule by the next two grapheme clusters and each rule consumes what it emits",T+"dispatch.rs"),("cluster-wise splitting of the untreated rest",T+"utils.rs")],
  tech="property-based testing: source reconstruction (lossless round trip) over generated texts"),
 dict(id="C02", title="Token positions are exact line and character coordinates",
  statement="Every token's start and end are the line and character (user-perceived characters since the last line end) at which its source text stands. A line ends at LF or CRLF, which counts as one character, and consecutive tokens leave no gap.",
  over=["inputs"], text="every Unicode text, including multi-code-point characters, CRLF and empty text",
  why="The tests check positions of a few hand-computed ASCII and Japanese documents; offsets that drift after a particular kind of token or character cannot be seen by them.",
  files=[T+"dispatch.rs",T+"newline.rs",T+"backslash.rs",T+"identifier.rs",T+"module.rs",T+"tokenizer.rs"],
  mech=[("line, column and token start are carried along and advanced by every rule",T+"tokenizer.rs"),("line reset",T+"newline.rs")],
  tech="property-based testing against an independent whole-text position walk"),
 dict(id="C03", title="Characters get the lexical meaning of their context",
  statement="Brackets, backslashes and line ends are always tokens of their own; dots, commas and blanks are tokens exactly inside brackets and ordinary text outside. In a command the word before the first dot is the module, the word after it is the command name, and every other word is text, one token per maximal run.",
  over=["inputs"], text="all well-formed documents (any nesting, blanks, line ends, macro heads), and all other texts as far as the rules reach",
  why="Meaning depends on the open brackets and the position in the command head, so on the whole history before the character; the tests fix a dozen histories.",
  files=[T+"dispatch.rs",T+"angle_bracket_open.rs",T+"dot.rs",T+"identifier.rs",T+"module.rs",T+"whitespace.rs"],
  mech=[("nest counters decide whether dot, comma and blank are tokens",T+"dispatch.rs"),("looking_for_identifier marks the command head",T+"tokenizer.rs")],
  tech="model-based property testing: generated document model and an independent reference lexer"),
 dict(id="C04", title="Escaping makes any text literal, everywhere",
  statement="Putting a backslash before each special character of any one-line text makes the document, or the command argument, carry exactly that text, with no diagnostics and no effect on what surrounds it.",
  over=["inputs"], text="all texts of one line, outside brackets and as arguments of each bracket kind, next to commands",
  why="The tests escape single characters in isolation; sequences of escapes, escapes adjacent to brackets and escapes inside nested arguments are unbounded in number.",
  files=[T+"backslash.rs",P+"escaped.rs",X+"backslash.rs"],
  mech=[("an escape is a backslash token followed by the escaped character's token, without its effect on nesting",T+"backslash.rs"),("the pair becomes text",P+"escaped.rs")],
  tech="property-based testing: escape/unescape round trip"),
 dict(id="C05", title="Parsing always succeeds and keeps every token",
  statement="For every text, well-formed or not, parsing yields a tree whose leaves from left to right are exactly the tokens, each with its text and its position.",
  over=["inputs"], text="all texts, including stray, unclosed and mismatched brackets, and misplaced blanks, dots, commas and backslashes",
  why="The tests parse short hand-made token lists; a token lost in one error recovery path needs that path's input.",
  files=[P+"parse.rs",P+"stmt.rs",P+"expr.rs",P+"expr_or_close.rs",P+"square.rs",P+"angle.rs",P+"curly.rs",P+"cst.rs"],
  mech=[("each parser returns the tokens it did not consume, and adds what it consumed",P+"expr.rs"),("closing brackets without an opening one are kept in the statement",P+"expr_or_close.rs")],
  tech="property-based testing: leaf sequence equals token sequence over arbitrary text"),
 dict(id="C06", title="Brackets pair innermost-first and blank lines separate statements",
  statement="For every text, a closing bracket ends the innermost open bracket of its kind, brackets skipped by it are unclosed, and one without an open partner is stray. Outside brackets a blank line ends a statement and a single line end does not; inside brackets line ends never do.",
  over=["inputs"], text="all texts: any sequence of the three bracket kinds, line ends and words",
  why="Pairing is a property of whole bracket sequences; the tests hold a handful of correct ones and one erroneous document.",
  files=[P+"parse.rs",P+"stmt.rs",P+"square.rs",P+"angle.rs",P+"curly.rs",P+"newline.rs"],
  mech=[("recursive descent closes a bracket only with its own closing token",P+"square.rs"),("statement loop",P+"parse.rs")],
  tech="differential property testing against a stack-based reference parser"),
 dict(id="C07", title="Syntax tree nodes cover exactly their source",
  statement="In the trees of a well-formed document every node spans from the first to the last character of the source it was made from. In the concrete tree of any text a node spans from its first to its last part, except that an unclosed bracket may extend to where its end was missed.",
  over=["inputs"], text="all well-formed documents, and for the concrete tree all texts",
  why="The tests compare kinds only, never positions of inner nodes.",
  files=[P+"cst.rs",P+"expr.rs",P+"square.rs",X+"ast.rs",X+"utils.rs",T+"tokens.rs"],
  mech=[("merge_location",T+"tokens.rs"),("set_location on bracket and expression nodes",P+"cst.rs")],
  tech="model-based property testing: expected spans computed while the document is generated"),
 dict(id="C08", title="Well-formed documents become exactly the tree they denote",
  statement="A well-formed document yields no diagnostics and an abstract tree of its statements, lines, texts and commands, each command with its bracket kind, module, name and comma-separated arguments in order. Blanks around an argument are dropped, blanks inside it are kept, line ends inside it vanish, and all node ids are distinct.",
  over=["inputs","programs"], text="all well-formed documents: nested commands in arguments and in head positions, any layout of blanks and line ends",
  why="The tests compare the trees of a few fixtures; nesting, layout and adjacency combine without bound.",
  files=[X+"transform.rs",X+"simplify.rs",X+"square.rs",X+"angle.rs",X+"curly.rs",X+"utils.rs",X+"stmt.rs",X+"document.rs",X+"ast.rs"],
  mech=[("bracket simplification and argument splitting",X+"utils.rs"),("fresh ids",X+"ast.rs")],
  tech="model-based property testing: expected abstract tree from the generated document model"),
 dict(id="C09", title="Malformed documents are diagnosed where and why they are wrong",
  statement="For every text, each bracket without its partner is reported once as not opened or not closed at its place, and misplaced commas, dots and backslashes and missing command head parts are reported once at theirs. Nothing else is reported, and every reported place lies in the document.",
  over=["inputs"], text="all texts, and all well-formed documents with one injected fault",
  why="One test document with several errors is printed without assertions; which faults are noticed depends on surrounding structure.",
  files=[X+"utils.rs",X+"square.rs",X+"angle.rs",X+"curly.rs",X+"stmt.rs",X+"backslash.rs",X+"error.rs"],
  mech=[("check_if_* and check_valid_arguments",X+"utils.rs"),("stray closing brackets reported per statement",X+"stmt.rs")],
  tech="differential property testing of all diagnostics against a reference, and fault injection into generated documents"),
 dict(id="C10", title="The front end answers for every text",
  statement="Tokenizing, parsing and transforming any text, and printing the results, ends without panic, abort or hang, for documents of any size and brackets nested at least 200 deep. A file that is not UTF-8 is refused with an error.",
  over=["inputs"], text="all texts; sizes up to 12000 characters and nesting up to 200 are exercised",
  why="The tests use short sane documents; crashes hide in malformed and large ones.",
  files=[T+"dispatch.rs",P+"parse.rs",X+"transform.rs",X+"utils.rs",X+"stmt.rs"],
  mech=[("loop instead of recursion over characters",T+"dispatch.rs"),("transform maps every node kind that can be left",X+"transform.rs")],
  tech="fuzzing with generated texts (random code points, token soup, large structures) in a watched child process"),
 dict(id="C11", title="Statements do not influence each other",
  statement="Joining two texts by a blank line, the first having no unclosed bracket, gives the statements and diagnostics of the first followed by those of the second, with the second's positions moved down by its line offset.",
  over=["inputs"], text="all pairs of texts, well-formed or not, and all blank-line separators",
  why="State leaking from one statement to the next (nest counters, head tracking, pooled text) needs particular pairs; no test compares a joined document with its parts.",
  files=[T+"dispatch.rs",T+"tokenizer.rs",P+"parse.rs",X+"document.rs"],
  mech=[("nest counters and head tracking return to rest at the end of a statement",T+"tokenizer.rs")],
  tech="metamorphic property testing: concatenation of documents"),
 dict(id="C31", title="Trees can be queried, extended, shown and stored without loss",
  statement="For every document, each node of its tree is found by its id from every node above it, and by nothing else; adding a child puts it last and widens the node's place just enough to cover it; the tree is shown one node per line in order, with depth, kind and value; two trees compare equal just if their kinds, values and children do; and tokens and trees written as JSON read back equal.",
  over=["inputs"], text="the trees of all texts, and all trees built by adding nodes in any order of their places",
  why="Plugins and tools get trees as JSON and look nodes up by id; the tests build a few trees and never query, print or store one.",
  files=[X+"ast.rs",P+"cst.rs",T+"tokens.rs"],
  mech=[("lookup, add and display",X+"ast.rs"),("places merged",T+"tokens.rs"),("(de)serialization",P+"cst.rs")],
  tech="property-based testing against a plain model of the tree, and JSON round trip"),
]
