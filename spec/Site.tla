-------------------------------- MODULE Site --------------------------------
(***************************************************************************)
(* A project and the commands which build it: sources, output directories, *)
(* metadata, temporary files and scripts, through the phases of a build.   *)
(*                                                                         *)
(* The sources are described by slots, each of which is in one of several  *)
(* options; editing the project means choosing another option.  An option  *)
(* has files, a manifest, or a script:                                     *)
(*   [k "files", files |-> <<file>>]                                       *)
(*   [k "manifest", there, ok, strip, data, meta, name, author]            *)
(*   [k "script", which "pre" | "post", n, names, at, does "ok"|"temp"|"fail"] *)
(* (n is the number of scripts of that kind, names are their file names,   *)
(* at is which of them fails).                                             *)
(* A file is                                                               *)
(*   [top "content" | "static" | "temp", p |-> path, stem, ext, s |-> text,*)
(*    b |-> bytes, bad "" | "parse" | "process", imp BOOLEAN, env BOOLEAN, *)
(*    t |-> title, list |-> directory whose pages are listed, or <<>>]      *)
(* Directories are read in the order of the names of their files; order     *)
(* says which that is for all the names of a universe.                      *)
(* Its bytes are made from this by the conformance driver such that a page *)
(* renders as said below; what templates do in full is Template.tla's.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

CONSTANT Universe(_) \* the universe denoted by id: [slots, base, temps, order, ...]

VARIABLES
  id,     \* which universe; never changes
  ch,     \* the option in which each slot is
  temp,   \* the files in the directory temp
  outs,   \* output directory -> its tree: a set of <<path, text>>, or Absent
  meta,   \* metadata.json: its rows, or none at all if there is no such file
  ph,     \* the phase of the running command: "idle", "init", "pre", "render", "merge",
          \* "publish", "export", "post", "next"
  cmd,    \* the running (or last) command
  built,  \* what has been rendered and merged so far: [files, rows]
  res,    \* the result of the last command: "none", "ok", "fail"
  runs,   \* what the scripts run by the last command saw
  old     \* ghost: the state when the last command started

vars == <<id, ch, temp, outs, meta, ph, cmd, built, res, runs, old>>

Absent == {<< <<"absent">>, "" >>}
U == Universe(id)

-----------------------------------------------------------------------------
(* Sources *)

Chosen == {U.slots[i].opts[ch[i]] : i \in 1..Len(U.slots)}
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Rank(name) == CHOOSE i \in 1..Len(U.order) : U.order[i] = name
FilesOf(top) == UNION {{f \in RangeOf(o.files) : f.top = top} : o \in {o \in Chosen : o.k = "files"}}
Content == FilesOf("content")
Static == FilesOf("static")
Manifest == CHOOSE o \in Chosen : o.k = "manifest"
Scripts(which) == {o \in Chosen : o.k = "script" /\ o.which = which}
Script(which) == IF Scripts(which) = {} THEN "" ELSE (CHOOSE o \in Scripts(which) : TRUE).does
\* If one of several scripts fails, those after it are not run.
Times(which) == IF Script(which) = "" THEN 0 ELSE IF Script(which) = "fail" THEN (CHOOSE o \in Scripts(which) : TRUE).at
                ELSE (CHOOSE o \in Scripts(which) : TRUE).n
Called(which, i) == (CHOOSE o \in Scripts(which) : TRUE).names[i]

DirOf(p) == SubSeq(p, 1, Len(p) - 1)
NameOf(f) == IF f.ext = "" THEN f.stem ELSE f.stem \o "." \o f.ext
IsTemplate(f) == f.ext = "html" /\ f.stem \in {"root", "md"}
IsPage(f) == f.ext \in {"html", "md"} /\ ~IsTemplate(f)
Above(ds) == UNION {{SubSeq(d, 1, n) : n \in 1..Len(d)} : d \in RangeOf(ds)}
IsPrefix_(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* The templates of a directory: those of the nearest directory at or above it, if any.
TemplatesAt(dir, stem) == {f \in Content : IsTemplate(f) /\ f.stem = stem /\ DirOf(f.p) = dir}
Nearest(dir, stem) ==
  LET found == {n \in 0..Len(dir) : TemplatesAt(SubSeq(dir, 1, n), stem) # {}}
  IN  IF found = {} THEN {}
      ELSE TemplatesAt(SubSeq(dir, 1, CHOOSE n \in found : \A m \in found : m <= n), stem)

Root(f) == Nearest(DirOf(f.p), "root")
MdRoot(f) == Nearest(DirOf(f.p), "md")
TheOne(s) == CHOOSE x \in s : TRUE

\* The data file which pages with imp read.
Data == {f \in Content : f.p = <<"data.json">>}

\* The markdown files of a directory, in order; their titles.
Listed(dir) == SetToSortSeq({f \in Content : f.ext = "md" /\ DirOf(f.p) = dir}, LAMBDA f, g : Rank(NameOf(f)) < Rank(NameOf(g)))
Listing(dir) == IF dir = <<>> THEN "" ELSE FoldLeft(LAMBDA text, f : text \o f.t \o ";", "", Listed(dir))
IsDir(dir) == dir \in Above(U.dirs) \/ \E f \in Content : IsPrefix_(dir, DirOf(f.p))

-----------------------------------------------------------------------------
(* Rendering *)

PageOk(f) ==
  /\ f.bad = ""
  /\ Root(f) # {} /\ TheOne(Root(f)).bad = ""
  /\ f.ext = "md" => MdRoot(f) # {} /\ TheOne(MdRoot(f)).bad = ""
  /\ f.imp => Data # {}
  /\ f.list # <<>> => IsDir(f.list)

ContentOk == /\ \A f \in Content : f.bad # "parse"
             /\ \A f \in Content : IsPage(f) => PageOk(f)

Rendered(f, env) ==
  LET r == TheOne(Root(f))
      data == IF f.imp THEN TheOne(Data).s ELSE ""
      body == IF f.ext = "md" THEN TheOne(MdRoot(f)).s \o "<p>" \o f.s \o data \o "</p>\n" ELSE f.s \o data \o Listing(f.list)
  IN  r.s \o (IF r.env THEN env ELSE "") \o body

\* The path of a node of the rendered tree, before extensions are stripped.
NodePath(f) == IF f.top = "content" /\ f.ext = "md" THEN Append(DirOf(f.p), f.stem \o ".html") ELSE f.p

\* Where a file is published, or <<>> if it is not.
OutPath(f, man) ==
  IF f.top # "content" THEN f.p
  ELSE IF IsTemplate(f) \/ (f.ext = "json" /\ ~man.data) THEN <<>>
  ELSE IF IsPage(f) /\ man.strip /\ f.stem # "index" THEN DirOf(f.p) \o <<f.stem, "index.html">>
  ELSE NodePath(f)

Bytes(f, env) == IF f.top = "content" /\ IsPage(f) THEN Rendered(f, env) ELSE f.b

All(tmp) == Content \cup Static \cup tmp

\* Directories without files (and those around them) are directories of the output, too.
EmptyDirs == {[top |-> t, p |-> d] : t \in {"content"}, d \in Above(U.dirs)} \cup {[top |-> t, p |-> d] : t \in {"static"}, d \in Above(U.sdirs)}

\* Two sources of one output path, or a file where a directory is needed.
Clash(tmp, man) ==
  \/ \E f, g \in All(tmp) : f # g /\ OutPath(f, man) # <<>> /\ OutPath(g, man) # <<>>
                            /\ IsPrefix_(OutPath(f, man), OutPath(g, man))
  \/ \E f \in All(tmp), d \in EmptyDirs : OutPath(f, man) # <<>> /\ IsPrefix_(OutPath(f, man), d.p)

\* The pairs of sources which may be named when a build is refused for that.
Clashing(tmp, man) ==
  {x \in All(tmp) \X EmptyDirs : OutPath(x[1], man) # <<>> /\ IsPrefix_(OutPath(x[1], man), x[2].p)} \cup
  {x \in All(tmp) \X All(tmp) : x[1] # x[2] /\
     \/ OutPath(x[1], man) # <<>> /\ OutPath(x[2], man) # <<>> /\ IsPrefix_(OutPath(x[1], man), OutPath(x[2], man))
     \/ x[1].top # x[2].top /\ IsPrefix_(NodePath(x[1]), NodePath(x[2]))}

\* Two trees with a node of the same name which are not both directories: this may be refused even
\* if the output paths are different.
NodeClash(tmp) ==
  \/ \E f, g \in All(tmp) : f.top # g.top /\ IsPrefix_(NodePath(f), NodePath(g))
  \/ \E f \in All(tmp), d \in EmptyDirs : f.top # d.top /\ IsPrefix_(NodePath(f), d.p)

Image(tmp, man, env) ==
  {<<OutPath(f, man), Bytes(f, env)>> : f \in {f \in All(tmp) : OutPath(f, man) # <<>>}}

(* Metadata: a row <<path, type, value>> for every node, and one for the site. *)
FileRow(f) ==
  IF f.top = "content" /\ f.ext = "md" THEN <<NodePath(f), "markdown", f.t>>
  ELSE IF f.top = "content" /\ f.ext = "json" THEN <<NodePath(f), "json", f.s>>
  ELSE <<NodePath(f), "file", "">>
DirPaths(tmp) == UNION {{SubSeq(f.p, 1, n) : n \in 1..(Len(f.p) - 1)} : f \in All(tmp)} \cup {d.p : d \in EmptyDirs}

\* A directory comes from content if it is there, else from static, else from temp, and those are
\* merged in that order; each directory is listed by the names of the sources.
TopIndex(top) == CASE top = "content" -> 1 [] top = "static" -> 2 [] top = "temp" -> 3
Holds(fs, dir) == \E f \in fs : Len(f.p) > Len(dir) /\ IsPrefix_(dir, f.p)
DirTop(dir) == IF Holds(Content, dir) \/ dir \in Above(U.dirs) THEN 1 ELSE IF Holds(Static, dir) \/ dir \in Above(U.sdirs) THEN 2 ELSE 3
DirPlace(dir) == [n \in 1..Len(dir) |-> <<DirTop(SubSeq(dir, 1, n)), Rank(dir[n])>>]
FilePlace(f) == Append(DirPlace(DirOf(f.p)), <<TopIndex(f.top), Rank(NameOf(f))>>)
Earlier(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Precedes(p, q) == \/ Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p
                  \/ \E n \in 1..Len(p) : n <= Len(q) /\ SubSeq(p, 1, n - 1) = SubSeq(q, 1, n - 1) /\ Earlier(p[n], q[n])
Rows(tmp, man) ==
  LET placed == {<<FilePlace(f), FileRow(f)>> : f \in All(tmp)}
                \cup {<<DirPlace(d), <<d, "directory", "">> >> : d \in DirPaths(tmp)}
                \cup {<< <<>>, << <<>>, man.name, man.author >> >>}
      rows == SetToSortSeq(placed, LAMBDA x, y : Precedes(x[1], y[1]))
  IN  [i \in 1..Len(rows) |-> rows[i][2]]

-----------------------------------------------------------------------------
(* Output directories.  Paths are sequences of names below a directory which holds everything;   *)
(* the project is at U.proj.                                                                     *)

LinkTo(p) == LET l == {x \in RangeOf(U.links) : x.p = p} IN IF l = {} THEN p ELSE TheOne(l).to

RECURSIVE Walk(_, _)
Walk(at, rest) ==
  IF rest = <<>> THEN at
  ELSE Walk(CASE Head(rest) \in {"", "."} -> at
              [] Head(rest) = ".." -> IF at = <<>> THEN at ELSE SubSeq(at, 1, Len(at) - 1)
              [] OTHER -> LinkTo(Append(at, Head(rest))), Tail(rest))

\* The directory denoted by -o.
Resolved(c) == IF c.abs THEN Walk(<<>>, c.path) ELSE Walk(U.proj, c.path)

Sources == {Append(U.proj, d) : d \in {"content", "static", "scripts", "temp"}}

\* It is refused if the sources are, contain, or lie inside it, or if it is a file.
Refused(o) == \/ \E d \in Sources : IsPrefix_(o, d) \/ IsPrefix_(d, o)
              \/ IsPrefix_(o, U.proj)
              \/ \E f \in RangeOf(U.plain) : IsPrefix_(f, o)

-----------------------------------------------------------------------------
(* Editing *)

Init_(i) ==
  /\ id = i
  /\ ch = Universe(i).base
  /\ temp = {} /\ meta = <<>> /\ ph = "idle" /\ res = "none" /\ runs = <<>>
  /\ outs = [o \in RangeOf(Universe(i).outs) |-> Absent]
  /\ cmd = [c |-> "none"] /\ built = [files |-> {}, rows |-> <<>>] /\ old = [c |-> "none"]

Idle == ph = "idle"

Edit(slot, opt) ==
  /\ Idle /\ ch[slot] # opt
  /\ ch' = [ch EXCEPT ![slot] = opt]
  /\ UNCHANGED <<id, temp, outs, meta, ph, cmd, built, res, runs, old>>

PutTemp(f) ==
  /\ Idle
  /\ temp' = {g \in temp : ~IsPrefix_(f.p, g.p) /\ ~IsPrefix_(g.p, f.p)} \cup {f}
  /\ UNCHANGED <<id, ch, outs, meta, ph, cmd, built, res, runs, old>>

-----------------------------------------------------------------------------
(* Commands: [c "build", path, abs, env, n] (bench builds n times in one process) and [c "clean"]; *)
(* also [c "misuse", args], a command line which makes no sense (there), and [c "about", args], which asks *)
(* about the program.  Each may have say: "" (or none at all), "q" (quiet), "v" (verbose), or      *)
(* "both", which makes no sense.                                                                   *)

SayOf(c) == IF "say" \in DOMAIN c THEN c.say ELSE ""
Senseless(c) == c.c = "misuse" \/ SayOf(c) = "both"
IsBuild(c) == c.c \in {"build", "bench"}

Start(c) ==
  /\ Idle
  /\ cmd' = IF IsBuild(c) THEN c @@ [out |-> Resolved(c), refused |-> Refused(Resolved(c))] ELSE c
  /\ ph' = (IF Senseless(c) THEN "misuse" ELSE IF IsBuild(c) THEN "init" ELSE c.c) /\ runs' = <<>>
  /\ old' = [c |-> c, ch |-> ch, outs |-> outs, meta |-> meta, temp |-> temp]
  /\ UNCHANGED <<id, ch, temp, outs, meta, built, res>>

Fail == ph' = "idle" /\ res' = "fail"

\* The manifest is read, and the output directory is checked.
ReadManifest ==
  /\ ph = "init"
  /\ IF Manifest.ok /\ ~cmd.refused
     THEN IF cmd.n = 0 THEN ph' = "idle" /\ res' = "ok" ELSE ph' = "pre" /\ UNCHANGED res
     ELSE Fail
  /\ UNCHANGED <<id, ch, temp, outs, meta, cmd, built, runs, old>>

\* What a script leaves in temp.
Filled(t, s) == IF s = "temp" THEN {f \in t : f.p # U.made.p} \cup {U.made} ELSE t
\* A script sees what those before it have left.
Seen(which, i) == [which |-> which, name |-> Called(which, i), out |-> outs[cmd.out], meta |-> meta,
                   temp |-> {<<f.p, f.b>> : f \in IF i > 1 THEN Filled(temp, Script(which)) ELSE temp}, env |-> cmd.env]

PreBuild ==
  /\ ph = "pre"
  /\ LET s == Script("pre") IN
     /\ runs' = runs \o [i \in 1..Times("pre") |-> Seen("pre", i)]
     /\ IF s = "fail" THEN Fail /\ UNCHANGED temp
        ELSE /\ ph' = "render"
             /\ temp' = Filled(temp, s)
             /\ UNCHANGED res
  /\ UNCHANGED <<id, ch, outs, meta, cmd, built, old>>

Render ==
  /\ ph = "render"
  /\ IF ContentOk THEN ph' = "merge" /\ UNCHANGED res ELSE Fail
  /\ UNCHANGED <<id, ch, temp, outs, meta, cmd, built, runs, old>>

Merge ==
  /\ ph = "merge"
  /\ IF Clash(temp, Manifest)
     THEN Fail /\ UNCHANGED built /\ temp' \in {temp, {}} \* temp may have been taken already
     ELSE /\ built' = [files |-> Image(temp, Manifest, cmd.env), rows |-> IF Manifest.meta THEN Rows(temp, Manifest) ELSE <<>>]
          /\ temp' = {}
          /\ ph' = "publish" /\ UNCHANGED res
  /\ UNCHANGED <<id, ch, outs, meta, cmd, runs, old>>

\* Trees with nodes of the same name may be refused, too.
MayRefuse ==
  /\ ph = "merge" /\ NodeClash(temp) /\ Fail
  /\ UNCHANGED <<id, ch, temp, outs, meta, cmd, built, runs, old>>

Publish ==
  /\ ph = "publish"
  /\ outs' = [outs EXCEPT ![cmd.out] = built.files]
  /\ ph' = "export"
  /\ UNCHANGED <<id, ch, temp, meta, cmd, built, res, runs, old>>

Export ==
  /\ ph = "export"
  /\ meta' = IF Manifest.meta THEN built.rows ELSE meta
  /\ ph' = "post"
  /\ UNCHANGED <<id, ch, temp, outs, cmd, built, res, runs, old>>

PostBuild ==
  /\ ph = "post"
  /\ LET s == Script("post") IN
     /\ runs' = runs \o [i \in 1..Times("post") |-> Seen("post", i)]
     /\ IF s = "fail" THEN Fail ELSE ph' = "next" /\ UNCHANGED res
  /\ UNCHANGED <<id, ch, temp, outs, meta, cmd, built, old>>

Again ==
  /\ ph = "next"
  /\ IF cmd.n > 1 THEN cmd' = [cmd EXCEPT !.n = @ - 1] /\ ph' = "pre" /\ UNCHANGED res
                  ELSE ph' = "idle" /\ res' = "ok" /\ UNCHANGED cmd
  /\ UNCHANGED <<id, ch, temp, outs, meta, built, runs, old>>

Clean ==
  /\ ph = "clean"
  /\ IF Manifest.there
     THEN /\ outs' = [o \in DOMAIN outs |-> IF o \in {Append(U.proj, "dist"), Append(U.proj, "_build")} THEN Absent ELSE outs[o]]
          /\ meta' = <<>>
          /\ ph' = "idle" /\ res' = "ok"
     ELSE Fail /\ UNCHANGED <<outs, meta>>
  /\ UNCHANGED <<id, ch, temp, cmd, built, runs, old>>

\* A command line which makes no sense does nothing, nor does a question.
Misuse ==
  /\ ph = "misuse" /\ Fail
  /\ UNCHANGED <<id, ch, temp, outs, meta, cmd, built, runs, old>>

About ==
  /\ ph = "about" /\ ph' = "idle" /\ res' = "ok"
  /\ UNCHANGED <<id, ch, temp, outs, meta, cmd, built, runs, old>>

\* What the report of a failure in phase p has to tell: the script which failed, or the sources which
\* clash (one of the pairs).
Scripted(p, rs) == IF p \in {"pre", "post"} /\ rs # <<>> THEN rs[Len(rs)].which ELSE ""
Names(f) == <<f.top>> \o f.p
Told(p, rs, tmp) == [script |-> Scripted(p, rs),
                     clash |-> IF p = "merge" THEN {<<Names(x[1]), Names(x[2])>> : x \in Clashing(tmp, Manifest)} ELSE {}]

\* What has been said when a command is over: the error, if and only if it failed; and other things
\* only if they are not suppressed.
SaidOf(c, r) == [error |-> r = "fail", more |-> SayOf(c) # "q" \/ Senseless(c), answer |-> c.c = "about"]

Command == Misuse \/ About \/ ReadManifest \/ PreBuild \/ Render \/ Merge \/ MayRefuse \/ Publish \/ Export \/ PostBuild \/ Again \/ Clean

-----------------------------------------------------------------------------
(* Properties of every reachable state *)

Ended == Idle /\ res # "none"
Built == Ended /\ IsBuild(cmd) /\ ~Senseless(cmd) /\ cmd.n > 0 /\ old.ch = ch \* nothing has been edited since

\* C13: failures which precede the publication leave everything published as it was.
FailedKeeps == (Built /\ res = "fail" /\ Script("post") # "fail") => outs = old.outs /\ meta = old.meta

\* C15: what is published is a function of the sources (here: of a project without any history).
FreshImage == (Built /\ res = "ok" /\ temp = {} /\ Script("pre") # "temp" /\ old.temp = {}) =>
                 outs[cmd.out] = Image({}, Manifest, cmd.env)

\* C14: a command changes nothing but the output directory, metadata and temp.
OthersKept == Built => \A o \in DOMAIN outs : o # cmd.out => outs[o] = old.outs[o]

\* C11: every output path has exactly one source; nothing that must not be published is.
OneSource == (Built /\ res = "ok") =>
   \A x, y \in outs[cmd.out] : x[1] = y[1] => x = y
Nested == (Built /\ res = "ok") =>
   \A x, y \in outs[cmd.out] : x # y => ~IsPrefix_(x[1], y[1])

\* C16: metadata is written only if enabled, and then lists every published file's source.
MetaOnlyIfEnabled == (Built /\ ~Manifest.meta) => meta = old.meta
MetaComplete == (Built /\ res = "ok" /\ Manifest.meta) =>
   \A f \in Content \cup Static : \E r \in RangeOf(meta) : r[1] = NodePath(f)

\* C16: directories come once, before what they hold.
MetaInOrder == \A i, j \in 1..Len(meta) : i < j =>
   /\ meta[i][2] = "directory" => meta[i] # meta[j]
   /\ (meta[j][2] = "directory" /\ meta[i][1] # meta[j][1] /\ IsPrefix_(meta[j][1], meta[i][1])) =>
        \E k \in 1..Len(meta) : meta[k][1] = meta[j][1] /\ meta[k][2] # "directory" \* a file published under the same name

\* C17: every script runs exactly once per build, the pre-build ones first.
RunsInOrder == (Built /\ cmd.c = "build") =>
   /\ (res = "ok") => Len(runs) = Times("pre") + Times("post")
   /\ \A i \in 1..Len(runs) : runs[i].which = "post" => runs[i].temp = {} /\ runs[i].out = Image(IF Script("pre") = "temp" THEN {f \in old.temp : f.p # U.made.p} \cup {U.made} ELSE old.temp, Manifest, cmd.env)
   /\ \A i, j \in 1..Len(runs) : (runs[i].which = "post" /\ runs[j].which = "pre") => j < i

\* C29: what makes no sense does nothing.
NoSense == (Ended /\ (Senseless(cmd) \/ cmd.c = "about") /\ old.ch = ch) =>
   outs = old.outs /\ meta = old.meta /\ temp = old.temp /\ runs = <<>> /\ (Senseless(cmd) <=> res = "fail")

\* C20: clean removes what is generated, and only that.
CleanOnly == (Ended /\ cmd.c = "clean" /\ ~Senseless(cmd) /\ old.ch = ch /\ res = "ok") =>
   /\ outs[Append(U.proj, "dist")] = Absent /\ meta = <<>>
   /\ \A o \in DOMAIN outs : o \notin {Append(U.proj, "dist"), Append(U.proj, "_build")} => outs[o] = old.outs[o]
=============================================================================
