#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]

ENUM = "TLA+/TLC: exhaustive template programs, replayed in the real code; random projects validated by TLC"
LEX = "TLA+/TLC: character machine over all texts within bounds, replayed in the real code; random files validated by TLC"
SITE = "TLA+/TLC: all histories of the site machine within bounds, replayed with the real command line"
CLAIMS = {
    "C01": (ENUM, "Every program of up to 4 block tokens in a page (3 in root.html, md.html and markdown bodies) over a 15-token alphabet is run by the specification, checked there against the Dyck condition on what was executed and against a structural semantics, and replayed in stuart_core; larger random programs are validated by TLC. Assumes that longer programs combine the same token interactions."),
    "C02": (ENUM, "Every program of up to 4 tokens over conditionals, loops, sections, imports and a failing tag, replayed in stuart_core and compared with the specification's output; random nested programs validated by TLC. Assumes that deeper nestings combine the same interactions."),
    "C03": ("TLA+/TLC: comparison table and its laws over all operand pairs, replayed in the real code", "TLC checks negation, trichotomy, symmetry and transitivity of the specified comparisons over all pairs and triples of about 110 operands (literals and data, every JSON type, double-precision corner cases); every pair is evaluated by all six functions in stuart_core. Assumes that numbers outside the sample behave like those in it."),
    "C04": ("TLA+/TLC: exhaustive loop selections with laws, replayed in the real code; exhaustive loop bodies; random projects validated by TLC", "All sequences of up to 4 items over 6 kinds of sort keys with 150 option combinations; all bodies of up to 4 tokens over loops and conditionals; directories of markdown files in random states. Ties among files of a directory are not checked, as the order of its files is that of the file system."),
    "C05": (ENUM, "All programs of up to 4 tokens over imports, loops, sections and references in a page (3 elsewhere); all paths of up to 3 components; random sites whose pages, templates and bodies bind and look up the same names."),
    "C06": (ENUM, "All placements of root.html and md.html in a tree of four directories; all section structures of up to 5 tokens in a page, root.html, md.html and bodies; random sites."),
    "C07": (LEX, "All texts of up to 6 characters over braces and backslashes, of up to 5 pieces inside tags and argument lists, all functions with arguments of all types, and all options of loops are read by a character machine in TLA+ (which TLC checks against laws about literal text) and by stuart_core; random documents and damaged programs are validated by TLC. Classes of non-ASCII characters are those of a sample."),
    "C08": ("TLA+/TLC: termination of the machine under weak fairness; enumerated and random inputs whose real runs must end in one of the machine's two final states", "TLC proves that every bounded program ends. Enumerated programs, tags, frontmatter and manifests, nesting up to 64, extreme values and random bytes are built by stuart_core and by the command line, which must end with a site or a diagnostic within a time limit."),
    "C09": (LEX, "All markdown files of up to 4 lines of frontmatter and body forms, all entries of up to 5 pieces, and random sites; $self as seen in md.html and in loops is compared value by value. The HTML of a body is what pulldown-cmark makes of the text which the specification computes."),
    "C10": ("TLA+/TLC: excerpts of all short strings at all lengths, with laws, replayed in the real code; random texts validated by TLC", "All strings of up to 4 (markup: 6) characters over ASCII, 2-, 3- and 4-byte characters, markup and spaces, at every length; word counts around the multiples of 200 with Unicode white space."),
    "C11": (SITE, "All content trees of up to 3 of 18 files chosen to collide (4 in the thorough tier) under all settings, all 27 ways of writing the settings, and random projects, each built once by the command line and compared file by file with the image computed by the specification. File names are UTF-8."),
    "C12": (SITE, "All projects of up to 3 content, static and temp files of 31 chosen to collide (4 in the thorough tier), with extensions stripped and not; random projects with arbitrary bytes. Where the specification leaves a refusal open (same node names, different output paths), either outcome is accepted."),
    "C13": (SITE, "Histories of builds around up to 2 edits out of 45 which break every phase (manifest, plugin, scripts, parsing, execution, templates, conflicts), replayed with the command line; all sequences of 5 library calls."),
    "C14": (SITE, "44 values of -o (relative, absolute, through .., through symbolic links, look-alikes of source directories) followed by every other command, and commands on projects which fail in every phase: after each command the whole project and its surroundings are compared byte for byte."),
    "C15": (SITE, "Histories of up to 3 rounds of edits (moves, renames, file to directory, settings, templates, data, scripts) and builds, in one process and in several; longer random histories. The specified output is a function of the sources only, checked by TLC on the specification."),
    "C16": (SITE, "All projects of up to 3 of 17 files with metadata enabled, random JSON values and frontmatter, random projects, and histories which switch metadata on and off."),
    "C17": (SITE, "All combinations of scripts, sources and commands within up to 3 edits; each script records its environment and what it sees of output, temp and metadata, which is compared with the specification's record of the same phase. The order of two scripts of one phase is left open."),
    "C18": ("TLA+/TLC: a calendar machine walked day by day, checked against the formulas by which dates are formatted; every day replayed in the real code", "Every day of 17 years (198 in the thorough tier) at varying times, written in 16 notations with 8 offsets, formatted with 42 specifiers alone, in combinations and with padding, in three local time zones; impossible dates, other values and malformed formats. Not covered: %U, whose value for Sundays chrono 0.4.22 gets wrong, fractions of a second, named time zones."),
    "C19": ("TLA+/TLC: all histories of creating, building, cleaning and removing projects within bounds, replayed with the real command line", "73 names (paths through missing, plain and linked nodes, quotes, control characters, options) each followed by 10 further steps, and deeper histories for a few; six Git identities, with and without git. The default content is built, and its output validated by TLC."),
    "C20": (SITE, "Clean in every state reached by up to two rounds of commands with several output directories, surrounded by look-alikes."),
    "C21": ("TLA+/TLC: convergence and termination checked as temporal properties under weak fairness; all edit histories within bounds replayed against the real server", "The specification of the server is checked by TLC for convergence (liveness) under all interleavings of edits and its steps. Histories of up to 2 edits (succeeding, failing in every phase, two at once, during the pre- and post-build scripts, with events lost), over 11 output directories, are replayed against real servers in network namespaces; output, metadata, sources, responses and the number of builds are compared. The known finding (edits during the end of a build are forgotten) is recognised by TLC's run of the forgetting variant. Real schedules other than those the scripts hold are sampled, not enumerated."),
    "C22": ("TLA+/TLC: broadcast invariant over all interleavings; all histories of browsers and edits within bounds replayed against the real server", "AllTold is checked over all interleavings of 4 edits, arrivals and departures. Histories of up to 14 steps with up to 9 browsers, which leave in five ways, are replayed against real servers; reload messages are counted against the successful builds, none may arrive while a build is held in a script, and pages fetched on reload must be new. The injected script is run in Node with a stand-in for the browser."),
    "C23": ("TLA+/TLC: exhaustive request targets and page texts, requested from the real server", "Every target of up to 4 pieces over 15 (dots, slashes, encoded forms, names), further alphabets at random, and every text of up to 4 pieces around </body>, are answered by the specification and requested from real servers (97,000 requests). All content types, binary and large files, malformed requests."),
    "C24": ("TLA+/TLC: resolution and parsing machines over all small sets of plugins, replayed in the real code", "All sets of up to two plugins (three in samples) with up to two functions over names chosen to collide with each other and with built-ins, all tags that can name them, inside and outside skipped blocks and loops; all files, plugin parsers and modes of success and failure within bounds; random documents crowded with plugin functions are validated by TLC. Plugins are linked into the harness. Their order, which the manifest leaves open, is any order."),
    "C25": ("TLA+/TLC: all lists of sources within bounds, loaded by the real command line", "All lists of one and two of 37 sources of every kind (files, Cargo projects, Git repositories, addresses, other platforms, broken ones), lists of three, two dependencies, worlds which change between commands, and the build without JavaScript. Cargo is replaced by a stand-in which copies a compiled plugin or fails; repositories and the web server are local. A remote whose history is rewritten is not covered."),
    "C26": ("TLA+/TLC: a small JavaScript given meaning in TLA+; all sequences of calls within bounds and random programs, replayed with the real V8 build", "Some 300 JSON values by nine ways in and out, 26 other JavaScript values as results and nested in values, all sequences of up to 3 of 12 and 13 calls and blocks over two plugins which use the same names, random programs over three plugins, and several pages in any order. Isolation, persistence and binding are action properties checked by TLC. Asynchronous code, and values of unbounded size, are not covered."),
    "C27": (LEX, "All programs of up to 3 tokens which fail in different ways in every kind of file, all short texts and frontmatter over several lines, random sites with faults among many lines, in the library and in the messages of the command line; all manifests of up to 2 of 13 lines, or 3 below a valid beginning. What is missing or there twice in a manifest has no line which is checked."),
    "C28": ("TLA+: source paths resolved by the specification, validated by TLC against the real code", "Paths of up to 3 components over 14 names inside and outside the content tree, relative, absolute and ending in /, from pages at four depths. Symbolic links within the content tree are not followed up."),
    "C29": (SITE, "All commands, quiet, verbose, both and neither, on projects with at most one failure of any phase and after a success; 32 command lines without sense and 12 questions; scripts which are loud or fail; creation of projects; a plugin which warns; histories of edits in a quiet development server. What is printed is checked for being absent where it must be, and for reporting errors exactly where there are some, not for its wording."),
}
NOT_APPLICABLE = {}
PENDING = "No check is claimed yet."

checks = []
na = []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, PENDING)})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "Specifications in TLA+ (spec/), checked with TLC; see DESIGN.md. No hooks in /repo are needed: everything is observed through stuart_core's public API, the command line, the file system and the development server's sockets."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
