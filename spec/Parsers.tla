------------------------------ MODULE Parsers ------------------------------
(***************************************************************************)
(* Files which are processed by plugins.  The content directory is loaded  *)
(* file by file: one whose extension no built-in handles is given to the    *)
(* first parser of the first plugin which declares that extension, which    *)
(* may refuse it; once all files are loaded they are processed, which may   *)
(* fail and decides what is published; then they are published together     *)
(* with the static files, unless two would be at the same place.            *)
(*                                                                         *)
(* What a parser does with a file is given by its mode:                     *)
(*   ""        keeps name and contents      contents  marks the contents    *)
(*   name      changes the extension        rename    does both             *)
(*   html, json  marks the contents and uses that extension                  *)
(*   badparse  refuses the file             fail      fails when processed  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Given == ndJsonDeserialize(IOEnv.PARSERS)[1]
Range(s) == {s[i] : i \in 1..Len(s)}

VARIABLES
  plugins,  \* the plugins: sequences of parsers [x: extensions, m: mode]
  config,   \* [strip, data, meta]
  files,    \* the files of content: their indices in Given.files
  static,   \* those of static
  todo,     \* files which are not loaded yet
  at,       \* the plugin and parser looked at
  nodes,    \* the files loaded: index -> <<plugin, parser>>, or <<>> for none
  done,     \* files processed: [p: path, b: contents, c: whether a plugin did it]
  res       \* "" while it runs, "ok", "plugin", "conflict"
vars == <<plugins, config, files, static, todo, at, nodes, done, res>>

File(f) == Given.files[f]

(***************************************************************************)
(* Names                                                                    *)
(***************************************************************************)
Dots(s) == {i \in 1..Len(s) : SubSeq(s, i, i) = "."}
LastDot(s) == IF Dots(s) = {} THEN 0 ELSE CHOOSE i \in Dots(s) : \A j \in Dots(s) : j <= i
\* A name which starts with its only dot has no extension.
HasExt(s) == LastDot(s) > 1
Ext(s) == SubSeq(s, LastDot(s) + 1, Len(s))
Stem(s) == IF HasExt(s) THEN SubSeq(s, 1, LastDot(s) - 1) ELSE s
EndsIn(s, e) == Len(s) >= Len(e) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
NameOf(path) == path[Len(path)]
DirOf(path) == SubSeq(path, 1, Len(path) - 1)

OwnExts == {"html", "md", "json"}

(***************************************************************************)
(* Loading and processing                                                   *)
(***************************************************************************)
Options == Range(Given.options)
\* Up to Given.most parsers, in up to Given.maxp plugins; the later ones are taken from fewer options.
Plugins ==
  LET opts(n) == {o \in Options : o.most >= n}
      seqs[n \in 0..Given.most] == IF n = 0 THEN {<<>>} ELSE {Append(s, o) : s \in seqs[n - 1], o \in opts(n)}
      cuts(n) == {c \in [1..Given.maxp -> 0..n] : c[Given.maxp] = n /\ \A i \in 1..Given.maxp - 1 : c[i] <= c[i + 1]}
      split(s, c) == [i \in 1..Given.maxp |-> SubSeq(s, IF i = 1 THEN 1 ELSE c[i - 1] + 1, c[i])]
  IN UNION {{split(s, c) : s \in seqs[n], c \in cuts(n)} : n \in 0..Given.most}

Subsets(S, n) == {T \in SUBSET S : Cardinality(T) <= n}

\* A file is not a directory.
Below(a, b) == Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a
OnDisk(fs) == \A f, g \in fs : ~Below(File(f).p, File(g).p)

Init ==
  /\ plugins \in Plugins
  /\ config \in Range(Given.configs)
  /\ files \in Subsets(1..Len(Given.files), Given.maxfiles)
  /\ static \in Subsets({f \in 1..Len(Given.files) : File(f).s}, Given.maxstatic)
  /\ Cardinality(files) + Cardinality(static) <= Given.maxfiles
  /\ OnDisk(files) /\ OnDisk(static)
  /\ todo = files /\ at = <<1, 1>> /\ nodes = <<>> /\ done = {} /\ res = ""

\* The directory is read in any order; only what is read first of two faulty files would differ, and all faults of plugins look the same from outside.
Current == CHOOSE f \in todo : \A g \in todo : f <= g
Took(p) ==
  /\ nodes' = (Current :> p) @@ nodes
  /\ todo' = todo \ {Current}
  /\ at' = <<1, 1>>

Load ==
  /\ res = "" /\ todo # {}
  /\ LET name == NameOf(File(Current).p) i == at[1] j == at[2] IN
     IF ~HasExt(name) \/ Ext(name) \in OwnExts \/ i > Len(plugins)
     THEN Took(<<>>) /\ UNCHANGED res
     ELSE IF j > Len(plugins[i])
     THEN at' = <<i + 1, 1>> /\ UNCHANGED <<nodes, todo, res>>
     ELSE IF Ext(name) \notin Range(plugins[i][j].x)
     THEN at' = <<i, j + 1>> /\ UNCHANGED <<nodes, todo, res>>
     ELSE IF plugins[i][j].m = "badparse"
     THEN res' = "plugin" /\ UNCHANGED <<nodes, todo, at>>
     ELSE Took(at) /\ UNCHANGED res
  /\ UNCHANGED <<plugins, config, files, static, done>>

Label(p) == ToString(p[1]) \o "-" \o ToString(p[2])
Left == {f \in files : \A d \in done : d.f # f}

Processed(f) ==
  LET path == File(f).p  p == nodes[f]  name == NameOf(path)
      m == IF p = <<>> THEN "" ELSE plugins[p[1]][p[2]].m
      new == CASE m \in {"rename", "name"} -> Stem(name) \o "." \o Label(p)
               [] m \in {"html", "json"} -> Stem(name) \o "." \o m
               [] OTHER -> name
      mark == IF m \in {"rename", "contents", "html", "json"} THEN <<Label(p)>> ELSE <<>>
  IN [f |-> f, p |-> Append(DirOf(path), new), b |-> Append(mark, File(f).b), c |-> p # <<>>]

Process ==
  /\ res = "" /\ todo = {} /\ Left # {}
  /\ LET f == CHOOSE f \in Left : \A g \in Left : f <= g IN
     IF nodes[f] # <<>> /\ plugins[nodes[f][1]][nodes[f][2]].m = "fail"
     THEN res' = "plugin" /\ UNCHANGED done
     ELSE done' = done \cup {Processed(f)} /\ UNCHANGED res
  /\ UNCHANGED <<plugins, config, files, static, todo, at, nodes>>

(***************************************************************************)
(* Publishing                                                               *)
(***************************************************************************)
\* Where a processed file is published, <<>> if it is not.
Place(d) ==
  LET name == NameOf(d.p) IN
  CASE ~config.data /\ EndsIn(name, ".json") -> <<>>
    [] config.strip /\ EndsIn(name, ".html") /\ name # "index.html" -> DirOf(d.p) \o <<SubSeq(name, 1, Len(name) - 5), "index.html">>
    [] OTHER -> d.p

Nodes == {[k |-> "c", f |-> d.f, p |-> d.p, at |-> Place(d), b |-> d.b] : d \in done}
         \cup {[k |-> "s", f |-> f, p |-> File(f).p, at |-> File(f).p, b |-> <<File(f).b>>] : f \in static}

Conflict == \E a, b \in Nodes : a # b /\
  \/ a.k # b.k /\ (a.p = b.p \/ Below(a.p, b.p))
  \/ a.at # <<>> /\ (a.at = b.at \/ Below(a.at, b.p) \/ Below(a.at, b.at))

Publish ==
  /\ res = "" /\ todo = {} /\ Left = {}
  /\ res' = IF Conflict THEN "conflict" ELSE "ok"
  /\ UNCHANGED <<plugins, config, files, static, todo, at, nodes, done>>

Next == Load \/ Process \/ Publish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Published == {[at |-> a.at, b |-> a.b] : a \in {x \in Nodes : x.at # <<>>}}

(***************************************************************************)
(* The property, without the scan.                                          *)
(***************************************************************************)
Declare(f) == {<<i, j>> \in (1..Len(plugins)) \X (1..Given.most) :
                 j <= Len(plugins[i]) /\ Ext(NameOf(File(f).p)) \in Range(plugins[i][j].x)}
Claimed(f) == HasExt(NameOf(File(f).p)) /\ Ext(NameOf(File(f).p)) \notin OwnExts /\ Declare(f) # {}
Before(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
First(f) == CHOOSE x \in Declare(f) : \A y \in Declare(f) : x = y \/ Before(x, y)
ModeOf(f) == LET p == First(f) IN plugins[p[1]][p[2]].m

FirstParser == \A f \in DOMAIN nodes : nodes[f] = IF Claimed(f) THEN First(f) ELSE <<>>
ErrorsFail == res \in {"ok", "conflict"} => \A f \in files : Claimed(f) => ModeOf(f) \notin {"fail", "badparse"}
Verbatim == res = "ok" => \A f \in files : ~Claimed(f) /\ ~EndsIn(NameOf(File(f).p), ".html") /\ ~EndsIn(NameOf(File(f).p), ".json")
                            => [at |-> File(f).p, b |-> <<File(f).b>>] \in Published
AllPublished == res = "ok" => Cardinality(Published) = Cardinality({x \in Nodes : x.at # <<>>})
Ends == <>(res # "")

Set2Seq(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => s[i] # s[j]
Printed == res # "" => PrintT("SITE " \o ToJson([plugins |-> plugins, config |-> config, files |-> Set2Seq(files), static |-> Set2Seq(static), res |-> res,
                                               out |-> IF res = "ok" THEN Set2Seq(Published) ELSE <<>>,
                                               meta |-> IF res = "ok" THEN Set2Seq({<<d.p, d.c>> : d \in done}) ELSE <<>>]))
=============================================================================
