------------------------------ MODULE Sources ------------------------------
(***************************************************************************)
(* Loading the plugins of a project.  A manifest gives every dependency a   *)
(* list of sources.  A command takes the dependencies in any order and      *)
(* tries the sources of each from left to right until one loads; if none    *)
(* does, it fails before it builds anything.                                *)
(*                                                                         *)
(* What is found at a source is given by the world, which changes between   *)
(* commands.  Kinds:                                                        *)
(*   none     nothing (missing file, empty directory, unreachable address)   *)
(*   foreign  a plugin of another platform: never touched                    *)
(*   js       a JavaScript plugin, skipped if this build has no support       *)
(*   lib      a compiled plugin                                              *)
(*   junk     a file which is no plugin (junkjs if it is called .js or .mjs) *)
(*   cargo    a Cargo project: compiled, which may fail or give no plugin    *)
(*   git      a Git repository, in which the project named like the          *)
(*            dependency is looked for and compiled                          *)
(*   http     an address from which a plugin (js or lib) or junk is fetched  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Given == ndJsonDeserialize(IOEnv.SOURCES)

VARIABLES
  g,       \* the universe
  table,   \* the lists of sources, one for every dependency
  world,   \* what is at each source: [k: kind, id: of the plugin there, "" for none]
  round,   \* the number of the command
  ph,      \* "ready", "load", "over"
  left,    \* dependencies which are not loaded yet
  dep,     \* the one being loaded, 0 for none
  at,      \* the next of its sources
  loaded,  \* <<dependency, plugin>>s
  tried,   \* <<dependency, index of the source>>s tried by this command, in order
  copies,  \* what git fetched: <<dependency, source>>s
  res,     \* the outcome of the command: "", "ok", "failed"
  trace    \* the history
vars == <<g, table, world, round, ph, left, dep, at, loaded, tried, copies, res, trace>>

U == Given[g]
Js == U.js
Commands == Len(U.changes) + 1

\* All lists of 1..n sources, and all tables of such lists.
Lists(n) == UNION {[1..k -> ToSet(U.sources)] : k \in 1..n}
Tables == IF Len(U.max) = 1 THEN {<<l>> : l \in Lists(U.max[1])}
          ELSE {<<l, m>> : l \in Lists(U.max[1]), m \in Lists(U.max[2])}

Init ==
  /\ g \in 1..Len(Given)
  /\ table \in (IF "tables" \in DOMAIN U THEN ToSet(U.tables) ELSE Tables)
  /\ world = [s \in {U.world[i].s : i \in 1..Len(U.world)} |-> LET r == CHOOSE r \in ToSet(U.world) : r.s = s IN [k |-> r.k, id |-> r.id]]
  /\ round = 1 /\ ph = "ready" /\ left = {} /\ dep = 0 /\ at = 1
  /\ loaded = {} /\ tried = <<>> /\ copies = {} /\ res = "" /\ trace = <<>>

Start ==
  /\ ph = "ready"
  /\ ph' = "load" /\ left' = 1..Len(table) /\ dep' = 0 /\ at' = 1
  /\ loaded' = {} /\ tried' = <<>> /\ res' = ""
  /\ UNCHANGED <<g, table, world, round, copies, trace>>

Pick(d) ==
  /\ ph = "load" /\ dep = 0 /\ d \in left
  /\ dep' = d /\ at' = 1
  /\ UNCHANGED <<g, table, world, round, ph, left, loaded, tried, copies, res, trace>>

Source == table[dep][at]
Found == world[Source]

\* Sources which cannot be meant for this build are passed over.
Skipped == Found.k = "foreign" \/ (~Js /\ Found.k \in {"js", "junkjs", "httpjs"})
Loads == ~Skipped /\ Found.id # ""
Fetches == Found.k = "git"

Try ==
  /\ ph = "load" /\ dep # 0 /\ at <= Len(table[dep])
  /\ at' = at + 1
  /\ tried' = IF Skipped THEN tried ELSE Append(tried, <<dep, at>>)
  /\ copies' = IF Fetches THEN copies \cup {<<dep, Source>>} ELSE copies
  /\ IF Loads
     THEN loaded' = loaded \cup {<<dep, Found.id>>} /\ left' = left \ {dep} /\ dep' = 0
     ELSE UNCHANGED <<loaded, left, dep>>
  /\ UNCHANGED <<g, table, world, round, ph, res, trace>>

\* The end of a command; then the world changes.
Outcome == [res |-> res', loaded |-> loaded, tried |-> tried, copies |-> copies]
End(r) ==
  /\ res' = r
  /\ trace' = Append(trace, Outcome)
  /\ round' = round + 1
  /\ IF round < Commands
     THEN /\ ph' = "ready"
          /\ world' = [s \in DOMAIN world |-> LET c == {x \in ToSet(U.changes[round]) : x.s = s} IN
                                              IF c = {} THEN world[s] ELSE LET x == CHOOSE x \in c : TRUE IN [k |-> x.k, id |-> x.id]]
     ELSE ph' = "over" /\ UNCHANGED world
  /\ UNCHANGED <<g, table, left, dep, at, loaded, tried, copies>>

GiveUp == ph = "load" /\ dep # 0 /\ at > Len(table[dep]) /\ End("failed")
Build == ph = "load" /\ dep = 0 /\ left = {} /\ End("ok")

Next == Start \/ (\E d \in left : Pick(d)) \/ Try \/ GiveUp \/ Build
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(***************************************************************************)
(* The property, without the order of events.                               *)
(***************************************************************************)
Usable(s) == world[s].id # "" /\ world[s].k # "foreign" /\ (Js \/ world[s].k \notin {"js", "httpjs"})
FirstUsable(d) == CHOOSE i \in 1..Len(table[d]) : Usable(table[d][i]) /\ \A j \in 1..i - 1 : ~Usable(table[d][j])
HasUsable(d) == \E i \in 1..Len(table[d]) : Usable(table[d][i])

\* While a command runs: what is loaded is the first usable source of its dependency, and nothing to the right of it is tried.
LeftToRight == ph = "load" =>
  /\ \A l \in loaded : HasUsable(l[1]) /\ l[2] = world[table[l[1]][FirstUsable(l[1])]].id
  /\ \A i \in 1..Len(tried) : \A k \in 1..tried[i][2] - 1 : ~Usable(table[tried[i][1]][k])
OnePlugin == \A x, y \in loaded : x[1] = y[1] => x = y
AllOrNothing == [][res' # res /\ res' # "" => (res' = "ok" <=> \A d \in 1..Len(table) : HasUsable(d))]_vars
ForeignUntouched == \A i \in 1..Len(tried) : ph = "load" => world[table[tried[i][1]][tried[i][2]]].k # "foreign"
Ends == <>(ph = "over")

Printed == ph = "over" => PrintT("LOADING " \o ToJson([u |-> g, table |-> table, trace |-> [i \in 1..Len(trace) |->
  [res |-> trace[i].res, loaded |-> SetToSeq(trace[i].loaded), tried |-> trace[i].tried, copies |-> SetToSeq(trace[i].copies)]]]))
=============================================================================
