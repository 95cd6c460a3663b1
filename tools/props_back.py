E = "crates/brack-expander/src/"
G = "crates/brack-codegen/src/"
W = "crates/brack-plugin/src/"
P = "crates/brack-project-manager/src/"
T = "crates/brack-transformer/src/"
L = "crates/brack-language-server/src/"
PROPS = [
 dict(id="C12", title="Macros are replaced by exactly what their plugin returns",
  statement="Expanding the tree of a well-formed document replaces each macro that is not inside another macro, at any depth and in order of the document, by the tree its plugin returns when given the whole original tree and the macro's id, once each. Everything else, including order, values, ids and positions, is unchanged. If a macro is unknown, fails or returns something that is not a tree, expansion fails.",
  over=["inputs","programs"], text="all well-formed documents with macros anywhere, and all plugins (pure, stateful, trapping, failing, returning malformed trees)",
  why="The test suite has no test of expansion at all; depth, position and number of macros and what plugins return vary without bound.",
  files=[E+"expand.rs",W+"plugins.rs",W+"plugin.rs"],
  mech=[("recursive rebuilding of the tree",E+"expand.rs"),("macro call with (tree, id) as JSON",W+"plugins.rs")],
  tech="property-based testing with generated WebAssembly plugins against a reference expander"),
 dict(id="C13", title="Arguments bind to parameters by position, kind and count",
  statement="A command called with fewer arguments than it has required parameters, or more than its parameters (unless one is an array), is refused with an error. Otherwise the plugin receives one value per parameter, in order: a required one the argument at its place, an optional one that argument or nothing, an array all arguments from its place on.",
  over=["inputs"], text="all parameter lists of required, optional and array types in any order, all numbers of arguments, both bracket kinds",
  why="No test calls a command with optional or array parameters; the combinations of list and count are unbounded.",
  files=[W+"types.rs",W+"value.rs",G+"square.rs",G+"curly.rs"],
  mech=[("arg_counter bounds the count",W+"types.rs"),("values built from arguments by parameter index",G+"square.rs")],
  tech="property-based testing: generated signatures and calls against a reference binding"),
 dict(id="C14", title="A command is found by module, name and bracket kind",
  statement="A command is called exactly if a plugin of its module name offers a command of its name with the return type of its bracket kind ([ ] inline, { } block, < > macro), also when a macro supplies the module or name; then that command and no other runs. In every other case compilation fails with an error and gives no output.",
  over=["inputs","configurations"], text="all sets of plugins sharing command names across modules and return types, and all commands",
  why="Overloading by return type and several plugins with equal names are not covered by any test.",
  files=[W+"plugins.rs",W+"plugin.rs",G+"square.rs",G+"curly.rs",E+"expand.rs"],
  mech=[("signature_to_metadata keyed by name and return type",W+"plugin.rs"),("name_to_plugin",W+"plugins.rs")],
  tech="property-based testing: generated plugin sets and calls against a reference lookup"),
 dict(id="C15", title="Output is the in-order concatenation of what nodes produce",
  statement="The output of a document is the concatenation, in document order, of its texts unchanged and its commands' results; nested commands run before the command that contains them, each once, left to right. Lines and statements are joined without separator. If any command fails there is no output.",
  over=["inputs","programs"], text="all well-formed documents, all plugins including stateful, trapping and failing ones",
  why="No test generates code; order and number of calls show only with stateful plugins and nested documents.",
  files=[G+"generate.rs",G+"stmt.rs",G+"expr.rs",G+"square.rs",G+"curly.rs",G+"text.rs"],
  mech=[("recursive generation, results appended in child order",G+"generate.rs"),("arguments generated before the call",G+"curly.rs")],
  tech="property-based testing with generated plugins against a reference evaluator, byte by byte"),
 dict(id="C16", title="Hooks wrap every node of their kind, exactly once",
  statement="An enabled document, statement, expression or text hook receives the result of every node of that kind (each argument is an expression), once, in order, and its answer takes the place of that result; hooks that are offered but not enabled are never called.",
  over=["inputs","configurations"], text="all combinations of the four hooks over one to three plugins, stateful ones included, and all well-formed documents",
  why="No test enables a hook.",
  files=[G+"generate.rs",G+"stmt.rs",G+"expr.rs",G+"text.rs",W+"plugins.rs",W+"feature_flag.rs"],
  mech=[("hook calls at the end of each node's generation",G+"stmt.rs"),("plugin of each hook",W+"plugins.rs")],
  tech="property-based testing with generated hook plugins against a reference evaluator"),
 dict(id="C17", title="Only plugins and plugin sets that fulfil the contract load",
  statement="A plugin loads exactly if it is a WebAssembly module with readable metadata and each hook enabled for it is offered with the hook's return type; all commands it declares are then known. A set loads exactly if no hook is enabled in two plugins. A damaged or non-plugin file is refused with an error, never a crash.",
  over=["inputs","configurations","programs"], text="all sets of plugins with any hook offers, types and enabled hooks; plugin files cut, altered or replaced",
  why="No test loads a plugin.",
  files=[W+"plugin.rs",W+"plugins.rs",W+"metadata.rs",W+"types.rs"],
  mech=[("hook and type checks while reading the metadata",W+"plugin.rs"),("one plugin per hook",W+"plugins.rs")],
  tech="property-based testing with fault injection: generated and damaged plugin files against the stated contract"),
 dict(id="C18", title="compile writes the whole output or an error, and always the same",
  statement="`brack compile` uses each file NAME_X.wasm (X of ASCII letters and digits) of the plugin directory as the plugin NAME and no other file. For a .[] document it prints exactly its output and a newline and exits 0, each time the same; on any syntax, plugin, command, usage or output error it exits non-zero, prints nothing on standard output and says why on standard error. It never changes a file and never crashes.",
  over=["inputs","configurations"], text="all documents, right or wrong, plugin directories with other files in them, file names, and wrong invocations",
  why="No test runs the binary; what may be wrong with a document, a directory or an invocation is unbounded.",
  files=["src/main.rs","src/sub_commands.rs",G+"generate.rs"],
  mech=[("plugin file names matched and loaded; levels dispatched; errors collected","src/main.rs")],
  tech="property-based testing of the binary against a reference compiler, with generated invocations"),
 dict(id="C19", title="A build writes exactly each document's output, and nothing else",
  statement="After a successful `brack build` out/STEM.BACKEND holds, for each docs/STEM.[], exactly what that document compiles to with the configured plugins and hooks; no other file changes and nothing is deleted. If any document has an error or a file cannot be written the build fails, says why and writes no wrong output. The result does not depend on earlier builds or the current directory.",
  over=["inputs","configurations","histories"], text="all projects and all histories of writing, breaking and removing documents with builds in between, run inside the project or elsewhere",
  why="No test builds a project; state left by earlier builds only shows over histories.",
  files=[P+"project.rs",P+"plugin.rs","src/main.rs"],
  mech=[("documents read, expanded, generated and written",P+"project.rs"),("hooks of the configuration become feature flags",P+"plugin.rs")],
  state=[("out","outputs of earlier builds",P+"project.rs"),("plugins","stored plugins",P+"plugin.rs")],
  tech="stateful property-based testing: histories of edits and builds against a reference model of the directory"),
 dict(id="C20", title="new makes a complete project of any name and touches nothing there",
  statement="`brack new --name N` makes the directory N with an empty docs/main.[], a Brack.toml that loads with the name N and no plugins, and a .gitignore of what builds make, and nothing else, whatever characters N has; `brack build` in it succeeds. If something called N is there it fails and changes nothing; if writing fails it says so.",
  over=["inputs","configurations"], text="all names that can name a directory, and all kinds of things that may have the name already",
  why="No test makes a project; names with quotes, backslashes and control characters are unbounded.",
  files=["src/main.rs",P+"config.rs"],
  mech=[("directory made first, name quoted","src/main.rs")],
  tech="property-based testing of the binary: generated names and obstacles, file tree compared before and after"),
 dict(id="C21", title="Brack.toml means what it says, and a wrong one is refused",
  statement="Loading a Brack.toml in any TOML spelling gives exactly the document values, plugins and enabled hooks written there, and writing it and loading again gives the same. Each hook key enables that hook of that plugin only. With a key missing, repeated or of the wrong type, or an unknown key or schema in a plugin entry, loading fails, keeps the previous configuration, and a build changes nothing.",
  over=["inputs","configurations"], text="all configurations with strings of any script, quotes and escapes, any plugins and hooks, and all single mistakes in them",
  why="No test loads a Brack.toml.",
  files=[P+"config.rs",P+"document.rs",P+"plugin.rs",P+"project.rs"],
  mech=[("(de)serialization of plugin entries by hand",P+"plugin.rs"),("configuration replaced after parsing",P+"project.rs")],
  tech="property-based testing: round trip through TOML and structured mutation, against values written by the generator"),
 dict(id="C22", title="Plugins are fetched once from the URL configured, and kept whole",
  statement="A build requests https://github.com/OWNER/REPO/releases/download/VERSION/NAME.BACKEND.wasm once for each plugin of Brack.toml not yet stored for that entry and backend, and nothing else; it then uses that plugin. If the server fails or the answer is cut, the build fails. Whatever fails when, even a kill or two builds at once, plugins/ holds only whole plugins and the next build works. Different plugins get different store names.",
  over=["histories","configurations","fault_sequences","crash_points"], text="all histories of configuration changes and builds, with all server answers, and a disk fault or kill at each change to the file system",
  why="Needs a server and faults; no test downloads anything.",
  files=[P+"plugin.rs",P+"project.rs"],
  mech=[("store name from owner, repository, version and backend",P+"plugin.rs"),("download to a temporary file, then rename",P+"plugin.rs")],
  state=[("plugins/*.wasm","plugins stored",P+"plugin.rs")],
  tech="stateful property-based testing with fault injection: a stand-in server and an interposed C library failing or killing at the n-th file change"),
 dict(id="C23", title="add stores the plugin and lists it, or changes nothing",
  statement="`brack add github:OWNER/REPO@VERSION` requests releases/download/VERSION/REPO.wasm of that repository once, stores exactly the bytes as plugins/REPO.wasm and adds the entry (REPO up to its first dot) to Brack.toml, keeping all other values. With a bad reference, no Brack.toml, a plugin already listed or a failing server it fails and changes nothing. A disk fault, a kill or another `add` at any moment leaves Brack.toml whole, old or new, never listing a plugin not stored whole; `add` again repairs.",
  over=["inputs","configurations","fault_sequences","crash_points"], text="all references, configurations and server answers, and a disk fault or kill at each change to the file system",
  why="Needs a server and faults; no test adds a plugin.",
  files=[P+"project.rs",P+"plugin.rs","src/main.rs"],
  mech=[("plugin stored first, then Brack.toml replaced",P+"project.rs"),("reference parsed by a regular expression",P+"plugin.rs")],
  tech="property-based testing with fault injection: a stand-in server and an interposed C library failing or killing at the n-th file change"),
 dict(id="C24", title="Language server messages are read however their bytes arrive",
  statement="The language server answers a session the same whether its bytes arrive message by message, byte by byte or many messages at once, with any header fields, for messages of any length, and each message as soon as it has arrived. A header without a usable Content-Length does not swallow the messages after it. It ends without error when its input ends, even within a message.",
  over=["inputs","schedules"], text="all sessions and all ways to cut their bytes into pieces, with bad headers in between",
  why="No test talks to the server; the ways to cut a session are exponentially many.",
  files=[L+"server.rs"],
  mech=[("header and body read by length",L+"server.rs")],
  tech="metamorphic property-based testing: the same session in generated pieces must be answered alike"),
 dict(id="C25", title="Every request gets exactly one answer, and no message ends the server",
  statement="The language server answers each request once, in order, with its id and either a result or an error: unknown methods get error -32601, semantic tokens of a readable file a result, of an unreadable one an error or null. Text that is not JSON gets error -32700, JSON that is no message -32600, with id null. Notifications and responses get no answer. The server goes on after every one.",
  over=["inputs","histories"], text="all sessions of valid and invalid requests, notifications, responses and junk about existing, missing and unreadable files",
  why="No test talks to the server; sessions and invalid messages are unbounded.",
  files=[L+"server.rs",L+"request.rs",L+"notification.rs",L+"response.rs",L+"result.rs"],
  mech=[("message kinds told apart, errors answered",L+"server.rs"),("requests dispatched",L+"request.rs")],
  tech="stateful property-based testing: generated sessions against a reference of which answers are due"),
 dict(id="C26", title="Each save publishes exactly the document's current errors",
  statement="After each didSave the server publishes, once and only if the client announced diagnostics, for the URI of the saved document, exactly the errors its file now has, none if it has none, with their ranges in UTF-16 units, whatever was saved before.",
  over=["inputs","histories"], text="all texts, all file names that need escaping in a URI, and all histories of saves",
  why="No test talks to the server; errors, scripts and histories are unbounded.",
  files=[L+"notification/did_save.rs",L+"position.rs",L+"server.rs"],
  mech=[("diagnostics of the saved file",L+"notification/did_save.rs"),("UTF-16 positions",L+"position.rs")],
  tech="stateful property-based testing: histories of saves against the library's errors and an own UTF-16 conversion"),
 dict(id="C27", title="Semantic tokens mark exactly the names and brackets",
  statement="Semantic tokens, decoded with the announced legend, mark exactly the module names (namespace), command names (variable) and brackets (< > macro, { } method, [ ] function) of the file as it is, in order, with start and length in UTF-16 units.",
  over=["inputs"], text="all documents and texts of any script and line ending",
  why="No test requests semantic tokens.",
  files=[L+"request/semantic_tokens.rs",L+"position.rs"],
  mech=[("relative positions and legend index per token",L+"request/semantic_tokens.rs")],
  tech="property-based testing: decoded tokens against the generator's own places and the tokenizer"),
 dict(id="C28", title="Completion offers exactly the commands of the open project",
  statement="After opening a document of a project, completion triggered by [, { or < offers exactly the commands of its plugins with the return type of that bracket kind, as snippets that insert MODULE.NAME, a space, the cursor and the closing bracket; any other trigger offers none. The server announces these triggers. Missing plugins are downloaded on opening. Opening a document of no project, or of one that cannot load, keeps what was there.",
  over=["histories","configurations","fault_sequences"], text="all projects and plugins, stored or not, and all histories of opening documents and completing",
  why="No test requests completion.",
  files=[L+"request/completion.rs",L+"notification/did_open.rs",P+"project.rs",W+"plugins.rs"],
  mech=[("commands filtered by return type",L+"request/completion.rs"),("project found and loaded on opening",L+"notification/did_open.rs")],
  state=[("project","the project of the document opened last",L+"server.rs")],
  tech="stateful property-based testing: histories of opening and completing against the generated plugins"),
 dict(id="C29", title="Each output level shows the stage it names, and JSON reads back",
  statement="`brack compile` with output level 1, 2, 3 or 4 shows the tokens, the concrete tree, the abstract tree and the expanded tree of the document, one token per line at level 1; as JSON they read back to the same values, and generating from the expanded tree of level 4 gives the output of level 5. Level 3 without JSON shows the errors, if there are any, instead; levels 4 and 5 fail on them. Other levels and JSON at level 5 are refused.",
  over=["inputs","configurations"], text="all documents and texts, all levels, with and without JSON",
  why="No test runs the binary.",
  files=["src/main.rs",T+"ast.rs","crates/brack-parser/src/cst.rs","crates/brack-tokenizer/src/tokens.rs"],
  mech=[("levels dispatched","src/main.rs"),("(de)serialization of tokens and trees",T+"ast.rs")],
  tech="differential property-based testing: the binary's levels against the library, JSON round trip"),
 dict(id="C30", title="Every syntax error is told once, with its place and reason",
  statement="When a document has syntax errors, `brack compile` (levels 4 and 5) and `brack build` say on standard error, for each of them once, where it starts and ends and what is wrong, and nothing that is no error; a build also names the document. Level 3 lists the same places.",
  over=["inputs"], text="all documents with one or many mistakes, alone or among others in a project",
  why="No test runs the binary on a wrong document; errors come in any number and combination.",
  files=["src/main.rs",P+"project.rs","crates/brack-transformer/src/error.rs"],
  mech=[("errors joined into one message","src/main.rs"),("document named",P+"project.rs")],
  tech="property-based testing: what the binary says against the errors of the library"),
]
