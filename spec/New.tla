-------------------------------- MODULE New --------------------------------
(***************************************************************************)
(* A file system in which projects are created (stuart new), built,        *)
(* cleaned and removed.  Nodes are [p |-> path, k |-> kind, s |-> text,    *)
(* to |-> path], with k one of                                             *)
(*   "dir", "file" (bytes s), "link" (to another path),                    *)
(*   "manifest" (a file which holds the name s and the author in to[1],    *)
(*   and nothing else), "repo" (a Git repository, not looked into).        *)
(* Paths are sequences of names; the commands run in the directory U.here. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Us == ndJsonDeserialize(IOEnv.GEN)

VARIABLES id,    \* the universe
          fs,    \* the nodes
          made,  \* the paths at which projects have been created and not removed since
          trace  \* what happened: commands and edits, each with what it left

vars == <<id, fs, made, trace>>
U == Us[id]
RangeOf(s) == {s[i] : i \in 1..Len(s)}

Node(p, k, s) == [p |-> p, k |-> k, s |-> s, to |-> <<>>]
At(f, p) == {n \in f : n.p = p}
Exists(f, p) == p = <<>> \/ At(f, p) # {}
KindAt(f, p) == IF p = <<>> THEN "dir" ELSE IF At(f, p) = {} THEN "none" ELSE (CHOOSE n \in At(f, p) : TRUE).k
Target(f, p) == (CHOOSE n \in At(f, p) : TRUE).to
Below(d, p) == Len(d) <= Len(p) /\ SubSeq(p, 1, Len(d)) = d
Front_(p) == SubSeq(p, 1, Len(p) - 1)
Last_(p) == p[Len(p)]

\* The directory to which names lead from a directory: <<path>>, or <<>> if there is none.
RECURSIVE Walk(_, _, _)
Walk(f, dir, names) ==
  IF names = <<>> THEN <<dir>>
  ELSE LET x == Head(names)
           p == Append(dir, x)
       IN  IF x \in {"", "."} THEN Walk(f, dir, Tail(names))
           ELSE IF x = ".." THEN Walk(f, IF dir = <<>> THEN dir ELSE Front_(dir), Tail(names))
           ELSE CASE KindAt(f, p) = "dir" -> Walk(f, p, Tail(names))
                  [] KindAt(f, p) = "link" -> IF KindAt(f, Target(f, p)) = "dir" THEN Walk(f, Target(f, p), Tail(names)) ELSE <<>>
                  [] OTHER -> <<>>

\* Names without those at the end which are empty (a/ means a).
RECURSIVE Trim(_)
Trim(names) == IF names # <<>> /\ Last_(names) = "" THEN Trim(Front_(names)) ELSE names

\* The path a directory of this name would get: <<path>>, or <<>> if it cannot be created.
Place(f, a) ==
  LET names == Trim(a.parts)
      from == IF a.abs THEN <<>> ELSE U.here
  IN  IF names = <<>> \/ ~a.fits THEN <<>>   \* (file systems limit the length of names)
      ELSE LET d == Walk(f, from, Front_(names))
               p == Append(d[1], Last_(names))
           IN  IF d = <<>> \/ Last_(names) \in {".", ".."} THEN <<>>
               ELSE IF Exists(f, p) THEN <<>> ELSE <<p>>

\* All that a new project consists of.
Project(p, name, nogit) ==
  {Node(p, "dir", ""), Node(p \o <<"content">>, "dir", ""), Node(p \o <<"static">>, "dir", ""),
   [p |-> p \o <<"stuart.toml">>, k |-> "manifest", s |-> name, to |-> U.author]}
  \cup {Node(p \o d.p, "file", d.s) : d \in RangeOf(U.defaults)}
  \cup (IF nogit THEN {} ELSE {Node(p \o <<".gitignore">>, "file", U.ignored)})
  \cup (IF nogit \/ ~U.git THEN {} ELSE {Node(p \o <<".git">>, "repo", "")})

\* What a build publishes: the image of the default project, its directories included.
Published(p) ==
  {Node(p \o <<"dist">> \o d.p, "file", d.s) : d \in RangeOf(U.image)}
  \cup {Node(p \o <<"dist">> \o SubSeq(d.p, 1, n), "dir", "") : d \in RangeOf(U.image), n \in 0..0}
  \cup UNION {{Node(p \o <<"dist">> \o SubSeq(d.p, 1, n), "dir", "") : n \in 1..(Len(d.p) - 1)} : d \in RangeOf(U.image)}

Without(f, d) == {n \in f : ~Below(d, n.p)}

-----------------------------------------------------------------------------

\* Commands may be quiet (U.say is "q") or verbose ("v"), which changes nothing but what they say.
SaidOf(c, ok) == [error |-> ~ok, more |-> U.say # "q" \/ c.c = "misuse", answer |-> FALSE]
Left(c, ok) == trace' = Append(trace, [c |-> c, ok |-> ok, fs |-> fs', said |-> SaidOf(c, ok)])

New ==
  \E i \in RangeOf(U.steps[Len(trace) + 1].new), nogit \in BOOLEAN :
    LET a == U.args[i]
        pl == Place(fs, a)
    IN  /\ fs' = (IF pl = <<>> THEN fs ELSE fs \cup Project(pl[1], a.raw, nogit))
        /\ made' = (IF pl = <<>> THEN made ELSE made \cup {pl[1]})
        /\ Left([c |-> "new", i |-> i, nogit |-> nogit], pl # <<>>)

\* The other commands and edits are done at a project which has been created.
Build == \E p \in made :
  /\ "build" \in RangeOf(U.steps[Len(trace) + 1].other)
  /\ \A q \in made : ~Below(Append(p, "content"), q) /\ ~Below(Append(p, "static"), q)  \* (it would be published too)
  /\ fs' = Without(fs, Append(p, "dist")) \cup Published(p)
  /\ Left([c |-> "build", p |-> p], TRUE)
  /\ UNCHANGED made

Clean == \E p \in made :
  /\ "clean" \in RangeOf(U.steps[Len(trace) + 1].other)
  /\ fs' = Without(fs, Append(p, "dist"))
  /\ Left([c |-> "clean", p |-> p], TRUE)
  /\ UNCHANGED made

RemoveIt == \E p \in made :
  /\ "remove" \in RangeOf(U.steps[Len(trace) + 1].other)
  /\ fs' = Without(fs, p)
  /\ made' = {q \in made : ~Below(p, q)}
  /\ Left([c |-> "remove", p |-> p], TRUE)

\* A command line which makes no sense does nothing.
Misuse == \E i \in RangeOf(U.steps[Len(trace) + 1].misuse) :
  /\ UNCHANGED <<fs, made>>
  /\ Left([c |-> "misuse", args |-> U.misuse[i]], FALSE)

Init == /\ id \in 1..Len(Us)
        /\ fs = RangeOf(Us[id].nodes)
        /\ made = {} /\ trace = <<>>
Next == Len(trace) < Len(U.steps) /\ (New \/ Build \/ Clean \/ RemoveIt \/ Misuse) /\ UNCHANGED id
Spec == Init /\ [][Next]_vars

Done == Len(trace) = Len(U.steps) \/ (Len(trace) > 0 /\ made = {} /\ U.steps[Len(trace) + 1].new = <<>>)
Printed == Done => PrintT("HISTORY " \o ToJson([id |-> id, trace |-> trace]))

-----------------------------------------------------------------------------
(* What must hold *)

\* The nodes are a tree: one at each path, below directories.
Tree == \A n \in fs : /\ \A m \in fs : m.p = n.p => m = n
                      /\ Len(n.p) > 1 => KindAt(fs, Front_(n.p)) = "dir"

\* Nothing which was there before a project was created, or which is not below it, is changed by it, and a
\* command which fails changes nothing.
Untouched == [][\A n \in fs : trace' # trace /\ Last_(trace').c.c = "new" => n \in fs']_vars
FailuresTouchNothing == [][~Last_(trace').ok => fs' = fs]_vars
Complete == \A p \in made : \E m \in At(fs, Append(p, "stuart.toml")) : m.k = "manifest"
=============================================================================
