import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],state=state or [],hook_needed=None)))
core="stuart-core/src/"
fn=core+"functions/parsers/"
st="stuart/src/"
p("C01","Unbalanced blocks fail the build; balanced ones never do",
 "While a page is rendered, every block opener that is executed (begin, for, if*, ifdefined) must be closed by its own matching end in the same file (page, md.html or root.html), and every executed end or else must belong to the innermost open block of that file; otherwise the build fails. A page is never published truncated, with a block dropped, or with a block closed by another block's end. Correctly nested templates are never rejected because of their nesting.",
 ["inputs","programs"],"all sequences of text and block functions in page, md.html, root.html and markdown body",
 "The tests render a dozen balanced templates; none has an unclosed or mis-nested block, and none at all in root.html.",
 [core+"process/mod.rs",fn+"begin.rs",fn+"end.rs",fn+"else.rs",fn+"for.rs",fn+"if.rs",fn+"ifdefined.rs"],
 [("frame stack, popped by name in end",fn+"end.rs"),("base frame check after each file",core+"process/mod.rs")],["build result and page output"])
p("C02","A conditional renders exactly the selected branch",
 "For any nesting of conditionals, loops and sections, a conditional renders the text between its opener and its own else() exactly when its condition holds at that point, and the text between that else() and its own end exactly when it does not; a missing branch renders nothing. Nothing in the branch not taken has any effect: no output, no section, no variable, no error from executing it. Whatever follows the conditional's own end is rendered normally.",
 ["inputs","programs"],"all nestings of conditional, loop and section blocks with all truth assignments",
 "One test with flat conditionals; no nested block inside a branch that is not taken.",
 [fn+"if.rs",fn+"ifdefined.rs",fn+"else.rs"],[("skip loop in the if_parsers! macro",fn+"if.rs"),("skip loop",fn+"ifdefined.rs")],["page output"])
p("C03","Comparisons follow one truth table over values",
 "ifeq, ifne, ifgt, ifge, iflt and ifle compare two operands (literals or variables): numbers compare by exact numeric value (fractions, negatives and large values included), and two strings are equal exactly when they are identical. A number and a string are never equal, and no ordering (gt, ge, lt, le) ever holds when an operand is a string; ifne is always the negation of ifeq. Comparing an undefined, null, boolean, array or object operand fails the build.",
 ["inputs"],"all six operators over all pairs of operands",
 "The conditionals test compares two integers and two strings; equality at the boundary of ordering operators, fractions, mixed types and undefined operands are not reached.",
 [core+"functions/mod.rs",fn+"if.rs"],[("Input::evaluate_variable, PartialEq and PartialOrd for Input",core+"functions/mod.rs"),("if_parsers! operator table",core+"functions/mod.rs")],["which branch is rendered"])
p("C04","A loop renders its body once per selected item, in order",
 "for renders its body once for each selected item, in order, with the loop variable bound to that item: the items are the array's elements (JSON file or variable) or the directory's own markdown files in the order of their names; sortby orders them by that string property (missing or non-string counts as empty), keeping ties in source order; order=\"desc\" reverses the sequence; then skip, then limit apply. An empty selection renders nothing and continues after the loop's own end, for any body. A source that is not an array or not an existing directory fails the build.",
 ["inputs","programs"],"all item lists, sort keys, orders, skip/limit values, and loop bodies including nested loops and conditionals",
 "Four tests with fixed data and one skip/limit pair; empty selections, ties, skip beyond the end and desc without sortby are never exercised.",
 [fn+"for.rs",core+"process/iter.rs"],[("waypoint/rewind per item",core+"process/iter.rs"),("sort_by_cached_key, rev, skip, take",fn+"for.rs")],["page output"])
p("C05","Variables resolve lexically and never leak",
 "A variable reference resolves to the innermost enclosing block of the same file that binds its first name (loop variable, import, $self, $env), then follows the dotted path through object keys and array indexes. A binding disappears when its block ends and is never visible in another page or in the template file the page is rendered into; importing a name already bound in the same block fails the build. Only a string can be inserted: inserting an undefined name, a missing path or a non-string value fails the build.",
 ["inputs","programs","histories"],"all programs of nested blocks, imports and references, over several pages of one build",
 "Tests never shadow a variable, reuse a name after its block ended, or look for a leak between pages.",
 [core+"process/mod.rs",core+"process/stack.rs",fn+"import.rs",core+"lib.rs"],[("StackFrame variables and reverse lookup",core+"process/mod.rs"),("get_value dotted path",core+"process/stack.rs"),("fresh base frame per file",core+"process/mod.rs")],["page output","scope.get_variable from a plugin function"])
p("C06","Pages compose through sections and the nearest templates",
 "Each page's output is the text of the root.html of the nearest directory at or above it, with each insert(\"s\") replaced by the content of the page's first section s; text of the page outside its sections is not published. A nested section's text also appears in its enclosing section. A page whose root template inserts a section the page does not define, or that has no root.html (or, for markdown, no md.html) at or above it, fails the build.",
 ["inputs","configurations"],"all placements of root.html and md.html in directory trees, and all section structures",
 "Every test has one root.html and one md.html in the top directory and two flat sections.",
 [core+"lib.rs",core+"process/mod.rs",fn+"insert.rs",fn+"begin.rs",fn+"end.rs"],[("Environment::update_from_children",core+"lib.rs"),("sections list",fn+"end.rs"),("two-pass process_html / process_markdown",core+"process/mod.rs")],["page output"])
p("C07","Literal text is reproduced exactly and tags parse exactly",
 "Every character outside template tags reaches the output unchanged, and \\{{ outputs a literal {{ without starting a tag. A function receives exactly the arguments written in its tag, in order: quoted strings verbatim (commas, parentheses and equals signs included), integers, $variables and name=value pairs, with whitespace around tokens and arguments ignored. A malformed tag (unclosed tag, missing parenthesis, unknown function, bad argument, positional after named) fails the build instead of being output or dropped.",
 ["inputs"],"all character sequences",
 "Tests use a handful of conventional tags and one escape; argument edge cases and malformed tags are untested.",
 [core+"parse/mod.rs",core+"parse/parser.rs",core+"parse/function.rs"],[("extract_until with escape",core+"parse/parser.rs"),("parse_function, parse_variable",core+"parse/mod.rs"),("RawArgument::parse",core+"parse/function.rs")],["page output","arguments seen by a plugin function parser"])
p("C08","Any input yields a site or a diagnostic, never a crash",
 "For every content tree (any bytes in HTML, markdown and JSON files), every manifest and every environment, with blocks and JSON nested at most 64 deep, a build terminates, and either succeeds or reports an error and exits with a non-zero status. It never panics, aborts or hangs, and neither does printing the error.",
 ["inputs"],"all file contents, with block and JSON nesting up to 64 levels",
 "Tests contain only valid files; no error path, including the display of errors, is executed by any test.",
 [core+"parse/mod.rs",core+"parse/function.rs",core+"parse/markdown.rs",core+"fs/mod.rs",st+"error.rs"],[("Result-based error reporting",core+"error.rs"),("StuartError::display",st+"error.rs")],["process exit status and stderr"])
p("C09","Markdown pages expose exactly their frontmatter and content",
 "A markdown file is published as an HTML page rendered through md.html, where $self has exactly its frontmatter entries as strings plus content (the HTML of its body, after the template tags in the body have been executed) and markdown (the body as written); the same values are what a for loop over its directory provides. The body is everything after the second --- line, or the whole file without frontmatter; an unterminated or malformed frontmatter fails the build. $self is not visible in the root template or in other pages.",
 ["inputs"],"all frontmatter blocks and bodies built from paragraphs and template tags",
 "Two fixed posts; no missing, malformed or unterminated frontmatter, quotes or colons in values, or failing body.",
 [core+"parse/markdown.rs",core+"process/mod.rs",core+"lib.rs"],[("parse_markdown",core+"parse/markdown.rs"),("preprocess_markdown",core+"process/mod.rs"),("to_value",core+"parse/markdown.rs")],["page output"])
p("C10","Excerpts cut exactly, and reading time is by words",
 "excerpt(v, n) outputs the text of v with <...> markup removed, stopping at the first character boundary at which n bytes have been output, followed by ... exactly when part of v was left unread; it never splits a character. timetoread(v) outputs the number of whitespace-separated words divided by 200, rounded down, but at least 1. Both fail the build when v is not a string.",
 ["inputs"],"all strings (ASCII and non-ASCII, with and without markup) and all lengths",
 "One ASCII string with two lengths is tested.",
 [fn+"excerpt.rs",fn+"timetoread.rs"],[("character loop",fn+"excerpt.rs"),("split_whitespace count",fn+"timetoread.rs")],["page output"])
p("C11","The output directory is exactly the image of the content tree",
 "After a successful build the output directory contains exactly one file per page and other content file at its mapped path with its rendered or original bytes, plus the merged static and temp files, and nothing else: x.html and x.md become x/index.html when extensions are stripped (index stays index.html) and x.html otherwise, other files keep their path. Template files root.html and md.html of the content tree are never published, and its .json files only when saving data files is enabled. Each setting takes effect exactly as written in the manifest and defaults to stripping on, data files off, metadata off.",
 ["inputs","configurations"],"all content trees and all eight settings combinations (set or absent)",
 "Tests read only dist/index.html of one project with default settings.",
 [core+"fs/mod.rs",core+"process/mod.rs",st+"config/mod.rs"],[("Node::save_recur",core+"fs/mod.rs"),("From<RawConfig> for Config",st+"config/mod.rs")],["listing and bytes of the output directory"])
p("C12","Static and temp files are published verbatim; conflicts fail",
 "Every file under static and temp is published byte for byte at its relative path, never interpreted as a template, renamed, or left out because of its name, which need not be valid UTF-8. If two sources would produce the same output path, or a file where another needs a directory, the build fails and names them; it never silently drops or overwrites one of them.",
 ["inputs","configurations"],"all combinations of content, static and temp trees, and the extension setting",
 "One static file with a unique name is tested; no conflict is.",
 [core+"fs/mod.rs",st+"build.rs"],[("Node::merge",core+"fs/mod.rs"),("merge loop over static and temp",st+"build.rs"),("ParsedContents::Ignored",core+"parse/contents.rs")],["output directory","exit status"])
p("C13","A failed build leaves the published site untouched",
 "When a build fails because of the manifest, a plugin, the pre-build script, any content file, a missing template or a conflict, it exits non-zero with an error and the previously published output directory and metadata.json are left byte for byte as they were. Asking for output before a successful build is reported as an error and writes nothing. A failing post-build script also makes the command exit non-zero.",
 ["histories","fault_sequences"],"all histories of successful builds followed by a failure at each phase of the build",
 "Tests only run successful builds into an empty directory.",
 [st+"build.rs",core+"lib.rs",core+"fs/mod.rs",st+"main.rs"],[("save only after build and merge",st+"build.rs"),("NotBuilt / MetadataNotEnabled",core+"lib.rs")],["output directory, metadata.json, exit status"])
p("C14","No command modifies the user's sources",
 "build, bench, clean and dev never create, change or delete anything in the project's content, static and scripts directories, its manifest, or other files of the project: only the output directory, temp, metadata.json and _build may change, and the build directory (target) of a local plugin which Cargo compiles. This holds for every -o value: an output directory that is, contains, or lies inside the project's sources is refused.",
 ["histories","configurations"],"all command histories over all -o values",
 "Tests never compare the sources before and after, and use only the default output directory.",
 [st+"build.rs",st+"main.rs",core+"fs/mod.rs"],[("remove_dir_all on the output path only",core+"fs/mod.rs"),("clean",st+"main.rs")],["project tree before and after"])
p("C15","A rebuild equals a fresh build of the current sources",
 "The published output after any successful build depends only on the sources, manifest and temp directory at that time: it equals what a build in a fresh copy of the project produces, whatever edits, deletions, renames, settings changes and failed or successful builds came before. Building again without changes reproduces it, also within one process that builds repeatedly. It does not depend on the order in which the file system lists the files of a directory (the order in which several plugins are loaded is undefined, as documented).",
 ["histories"],"all histories of edits (add, change, delete, rename, file-to-directory) interleaved with builds",
 "Each test builds once into an empty directory.",
 [core+"fs/mod.rs",core+"lib.rs",st+"build.rs"],[("remove_dir_all then recreate",core+"fs/mod.rs"),("input, base, output reassigned per build",core+"lib.rs")],["output directory after each build"])
p("C16","Exported metadata mirrors the site tree",
 "With metadata enabled, a successful build writes metadata.json holding the site's name and author and one entry per content, static and temp file and directory, nested as in the tree and in the order of names within each tree: a markdown page carries its frontmatter, a JSON file its value, other files only name and type. With metadata disabled the file is not written or changed.",
 ["inputs","configurations"],"all content trees and frontmatter/JSON values, metadata on and off",
 "No test enables metadata.",
 [core+"fs/mod.rs",core+"parse/contents.rs",core+"lib.rs",st+"build.rs"],[("save_metadata_recur",core+"fs/mod.rs"),("to_json",core+"parse/contents.rs")],["metadata.json"])
p("C17","Build scripts run once, in order, with the documented environment",
 "Each build runs the project's pre-build scripts, then builds, publishes and exports metadata, then runs its post-build scripts, each script exactly once (several for one event in the order of their names), with the documented STUART_* variables. A pre-build script sees the previous output and may fill temp, whose files are in the published output while temp itself is gone when post-build runs; post-build sees the new output and metadata. A failing pre-build script stops the build before anything is published and a failing script always makes the command fail, with a message which names it and shows its exit code and what it has printed.",
 ["histories","fault_sequences"],"all combinations of scripts present, failing or succeeding, writing to temp, over build and bench",
 "No test project has scripts.",
 [st+"scripts.rs",st+"build.rs"],[("Scripts::execute",st+"scripts.rs"),("phase order in StuartContext::build",st+"build.rs")],["trace appended by the scripts","exit status"])
p("C18","Dates are formatted with the requested format",
 "dateformat(v, f) outputs the instant denoted by v, in UTC, in the chrono format f, and fails the build when v is not a date or f is invalid.",
 ["inputs"],"all date strings accepted by the date parser and all format strings",
 "One date and one format are tested.",
 [fn+"dateformat.rs"],[("parse_with and format",fn+"dateformat.rs")],["page output"])
p("C19","A new project is complete and builds, or nothing is touched",
 "stuart new NAME creates the named directory with a manifest holding exactly that name, the default content and static files, and (unless --no-git) a .gitignore and a Git repository in that directory; the result builds. If the directory already exists, or its parent does not, the command fails without changing anything.",
 ["inputs","histories"],"all project names and paths, with and without --no-git, with and without a Git identity",
 "The new command is not tested.",
 [st+"new.rs",st+"config/git.rs"],[("create_dir fails when it exists",st+"new.rs"),("extract",st+"new.rs")],["created tree","exit status"])
p("C20","Clean removes generated files and only those",
 "stuart clean, run in a project directory, removes dist, _build and metadata.json if present and nothing else, and succeeds whether or not they exist. Outside a project directory it fails and removes nothing.",
 ["histories"],"all subsets of generated and source entries present",
 "The clean command is not tested.",
 [st+"main.rs"],[("clean",st+"main.rs")],["project tree before and after"])
p("C21","The development server converges to the latest sources",
 "While dev runs, after the last of a series of edits the served output becomes that of a build of the current sources if they build, and otherwise stays at the last successful build; an error in the project never ends the server, and fixing it is picked up. The server does not rebuild because of its own writes (output directory, temp, metadata.json): with no further edits it stops building. (The manifest and the set of scripts and plugins are those at its start.)",
 ["histories","schedules"],"all interleavings of edits, watcher events, rebuilds and failures, for default and custom output directories",
 "The dev command is not tested.",
 [st+"serve/mod.rs",st+"build.rs"],[("build_watcher event loop and path filter",st+"serve/mod.rs"),("drain after build",st+"serve/mod.rs")],["log of builds, output directory"])
p("C22","Every connected browser is told to reload after each rebuild",
 "After each rebuild that succeeds, every WebSocket client connected at that time receives a reload message after the new output is in place, and none is sent for a rebuild that fails. Clients that have gone away never prevent the others from being notified, or stop the server.",
 ["histories","schedules"],"all interleavings of clients connecting, disconnecting and rebuilds succeeding or failing",
 "The dev command is not tested.",
 [st+"serve/mod.rs"],[("streams list, broadcast and swap_remove",st+"serve/mod.rs")],["messages received by each client"])
p("C23","The development server serves the output and nothing else",
 "A request for a path returns the current bytes of the corresponding output file (index.html for a directory path ending in /, a redirect to the slash form otherwise), with a content type from its extension; files containing </body> have the reload script inserted immediately before the first one, and are otherwise unchanged, and other files are served byte for byte. No request path, however encoded, returns a file outside the output directory; unknown paths, and possibly paths with .. or a colon in them, give 404, and no request stops the server.",
 ["inputs"],"all request paths and all output trees",
 "The dev command is not tested.",
 [st+"serve/mod.rs"],[("try_find_path",st+"serve/mod.rs"),("splice before </body>",st+"serve/mod.rs")],["HTTP responses"])
p("C24","Plugin functions and parsers are resolved by fixed rules",
 "A function name is resolved to the built-in of that name, else to the first loaded plugin function (plugins of several dependencies are loaded in no defined order) whose name or plugin::name matches it; any other name fails the build. Plugin functions, whatever they are called, never begin, continue or end a block, and they see and produce exactly what built-ins would at that point. A file whose extension no built-in handles is processed by the first loaded plugin parser declaring that extension, which determines its published name and bytes; a plugin error fails the build, and files no parser claims are copied verbatim.",
 ["inputs","configurations"],"all sets of plugins with overlapping names, function names and extensions",
 "One test calls prefixed JS functions of two plugins; priorities, collisions, parsers and plugin errors are not tested.",
 [core+"parse/mod.rs",core+"fs/mod.rs",core+"plugins/mod.rs",core+"process/mod.rs"],[("FUNCTION_PARSERS before plugins",core+"parse/mod.rs"),("'outer loop over parsers",core+"fs/mod.rs")],["which plugin function is called","output directory"])
p("C25","Plugin sources are tried in order until one loads",
 "For each dependency, its semicolon-separated sources are tried from left to right until one loads, sources for other platforms (and JavaScript in a build without support for it) being skipped, and no later source is tried after a success. What a source is (a file, a Cargo project, a Git repository, an address) is decided anew by each command, and what earlier sources or commands left behind is not mistaken for it. If none loads, the command fails before building. Each dependency contributes exactly one plugin, and relative sources are resolved against the manifest's directory. A file which is no plugin, a project which does not compile and a module which throws are sources which do not load, and never end the command otherwise.",
 ["configurations","fault_sequences"],"all dependency tables over sources that load, fail or are skipped",
 "Tests load one valid source per plugin.",
 [st+"plugins/mod.rs",st+"plugins/source.rs"],[("load loop over split(';')",st+"plugins/mod.rs"),("load_from_source",st+"plugins/mod.rs")],["functions available in the built site","exit status"])
p("C26","JavaScript plugins are isolated and exchange values faithfully",
 "Each JavaScript plugin keeps its own state across all calls of a build, and none can see or affect another's. A call runs the function the plugin declared by that name (the first, if there are several), whatever its code did to global objects. Arguments and STUART.get give the function the same JSON value the template has (undefined for an unknown name), STUART.set binds in the innermost open block the JSON value it is given, in place of any earlier value bound there, whatever way the function reaches STUART; changes to arguments have no effect outside JavaScript. A result other than undefined is output as a string, and an undefined one outputs nothing. A plugin function that throws, or an argument naming an undefined variable, fails the build; no plugin result crashes it.",
 ["inputs","histories"],"all sequences of calls over several plugins and all JSON values",
 "Two tests check counters of two plugins and a few fixed calls.",
 [st+"plugins/js/mod.rs",st+"plugins/js/context.rs",st+"plugins/js/json.rs"],[("one v8::Context per plugin",st+"plugins/js/mod.rs"),("json_to_js / js_to_json",st+"plugins/js/json.rs"),("STUART object",st+"plugins/js/context.rs")],["page output","exit status"])
p("C27","Errors name the file and line at fault",
 "A build error caused by a template tag names the file containing that tag and the line on which the offending tag stands, in pages, root.html, md.html and markdown bodies (with or without frontmatter), for parsing errors the line at which the parser stopped. Errors about a whole file (invalid JSON or UTF-8, a block left open at its end, a missing template) name that file. A syntax or type error in the manifest names the manifest and its line, as do the messages which the commands print, which quote that line of the file.",
 ["inputs"],"all positions of one faulty tag in any file of a project",
 "No test examines an error.",
 [core+"parse/parser.rs",core+"parse/mod.rs",core+"parse/markdown.rs",core+"error.rs",st+"error.rs",st+"build.rs"],[("Parser::location and traceback",core+"parse/parser.rs"),("LocatableToken::traceback",core+"parse/mod.rs")],["error value","stderr"])
p("C28","Templates read data only from inside the content tree",
 "import and for with a file or directory source resolve the given path from the content root, however deep the page is, and read it as it was loaded by this build. A path that leaves the content tree (parent components or absolute), names nothing, or names something of the wrong kind fails the build; no file outside the content directory is ever read into a page through them.",
 ["inputs"],"all source paths over all content trees",
 "Tests import existing files by plain names from the top directory only.",
 [core+"fs/mod.rs",fn+"import.rs",fn+"for.rs"],[("Node::get_at_path",core+"fs/mod.rs")],["page output","build result"])
p("C29","Nonsense does nothing; quiet and verbose change only what is said",
 "A command line which makes no sense (an unknown command, option or value, a missing or superfluous argument, -q together with -v) fails with a message and changes nothing, and so does asking for help or the version, which succeeds. With -q every command, the development server and plugins included, prints nothing except the errors of what failed; -q and -v never change what a command does, writes, or returns. A command reports an error exactly if it fails.",
 ["inputs","histories"],"all commands with and without -q and -v on all projects with a failure in any phase, and in the development server",
 "No test looks at what commands print, and none uses the flags.",
 [st+"main.rs",st+"logger/mod.rs",st+"logger/progress.rs",st+"serve/mod.rs",st+"plugins/js/context.rs"],[("app: arguments and their conflicts",st+"main.rs"),("log! and LogLevel",st+"logger/mod.rs"),("Progress",st+"logger/progress.rs")],["stdout, stderr, exit status","files"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
