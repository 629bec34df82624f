------------------------------- MODULE DevGen -------------------------------
(***************************************************************************)
(* Histories of the development server to be replayed.  What happens while *)
(* the server builds cannot be placed everywhere in the real one, but while *)
(* a build script runs: so edits happen when nothing is to be done, and,   *)
(* after an edit with a plan, once more while the pre-build or post-build  *)
(* script of the build it causes is running.                               *)
(*                                                                         *)
(* Round n of a universe allows the steps rounds[n].acts, of               *)
(*   "edit", "two" (two edits at once), "pre", "post" (with a second edit  *)
(*   while that script runs), "connect", "leave", "temp", "skip",          *)
(*   "flood" (an edit of which the server only learns that it missed some), *)
(*   "config" (the manifest is replaced: the server keeps to the one it was  *)
(*   started with, and goes on).                                             *)
(***************************************************************************)
EXTENDS Dev

VARIABLES round, plan, trace
gvars == <<round, plan, trace>>

Round == U.rounds[round]
May(a) == a \in RangeOf(Round.acts)
Open == Quiet /\ plan = "" /\ round <= Len(U.rounds)
Log(e) == trace' = Append(trace, e)
Slots == IF round <= Len(U.rounds) THEN RangeOf(Round.slots) ELSE {}

GenInit == FreeInit /\ round = 1 /\ plan = "" /\ trace = <<>>

EditStep ==
  /\ Open
  /\ \E s \in Slots : \E o \in 1..Len(U.slots[s].opts) : \E p \in {"", "pre", "post", "flood"} :
       /\ IF p = "" THEN May("edit") ELSE May(p)
       /\ Change(s, o) /\ Possible'
       /\ plan' = (IF p = "flood" THEN "" ELSE p)
       /\ Log([a |-> "edit", slot |-> s, opt |-> o, plan |-> p])
  /\ UNCHANGED <<round, edits>>

\* Two edits at once: nothing is built between them.
TwoStep ==
  /\ Open /\ May("two")
  /\ \E s, t \in Slots : \E o \in 1..Len(U.slots[s].opts), p \in 1..Len(U.slots[t].opts) :
       /\ s < t /\ ch[s] # o /\ ch[t] # p
       /\ ch' = [ch EXCEPT ![s] = o, ![t] = p] /\ dirty' = TRUE
       /\ Log([a |-> "two", s |-> s, o |-> o, t |-> t, p |-> p])
  /\ UNCHANGED <<id, temp, outs, meta, ph, cmd, built, res, runs, old, up, told, wins, since, round, plan, edits>>
  /\ Possible'

\* While the script runs, another edit.
During ==
  /\ plan # "" /\ ph = plan
  /\ Script(plan) # ""
  /\ \E s \in RangeOf(U.during) : \E o \in 1..Len(U.slots[s].opts) :
       /\ Change(s, o) /\ Possible'
       /\ Log([a |-> "during", slot |-> s, opt |-> o, at |-> plan])
  /\ plan' = ""
  /\ UNCHANGED <<round, edits>>

\* A plan which does not come about, as the build fails before.
NoPlan == /\ plan # "" /\ Idle /\ ~dirty
          /\ plan' = "never"
          /\ UNCHANGED <<vars, dvars, round, trace>>

BrowserStep ==
  /\ Open
  /\ \E b \in Browsers : \/ May("connect") /\ (\A c \in Browsers : c < b => \E i \in 1..Len(trace) : trace[i].a = "connect" /\ trace[i].b = c)
                            /\ Connect(b) /\ Log([a |-> "connect", b |-> b])
                         \/ May("leave") /\ Leave(b) /\ Log([a |-> "leave", b |-> b])
  /\ round' = round + 1
  /\ UNCHANGED <<plan, edits>>

\* Files in temp are published by the next build, and cause none.
TempStep ==
  /\ Open /\ May("temp")
  /\ \E i \in 1..Len(U.temps) : temp' = {g \in temp : g.p # U.temps[i].p} \cup {U.temps[i]} /\ Log([a |-> "temp", f |-> U.temps[i]])
  /\ temp' # temp
  /\ round' = round + 1
  /\ UNCHANGED <<id, ch, outs, meta, ph, cmd, built, res, runs, old, dvars, plan>>

\* The manifest is that of the start, whatever becomes of the file.
ConfigStep ==
  /\ Open /\ May("config")
  /\ \E k \in 1..Len(U.configs) : Log([a |-> "config", k |-> k])
  /\ round' = round + 1
  /\ UNCHANGED <<vars, dvars, plan>>

Skip == Open /\ May("skip") /\ round' = round + 1 /\ UNCHANGED <<vars, dvars, plan, trace>>

BeginStep == Begin /\ UNCHANGED <<gvars, edits>>

SpuriousStep == plan = "" /\ Spurious /\ UNCHANGED <<gvars, edits>>

Done(t) == t = Absent
Tree(t) == IF Done(t) THEN <<>> ELSE <<SetToSeq(t)>>
Optional(m) == IF m = <<>> THEN <<>> ELSE <<m>>
Observation == [a |-> "obs", ok |-> res' = "ok", temp |-> SetToSeq({<<f.p, f.b>> : f \in temp'}),
                outs |-> SetToSeq({<<o, Tree(outs'[o])>> : o \in DOMAIN outs'}), meta |-> Optional(meta'),
                up |-> SetToSeq(up')]

\* Observations are made when the server has nothing left to do.
ServerStep ==
  /\ plan = "" \/ ph # plan
  /\ Step
  /\ IF ph' = "idle" /\ ~dirty'
     THEN IF plan # "" THEN UNCHANGED <<round, plan, trace>>
          ELSE Log(Observation) /\ round' = (IF trace = <<>> THEN 1 ELSE round + 1) /\ UNCHANGED plan
     ELSE UNCHANGED gvars
  /\ UNCHANGED edits

GenNext == EditStep \/ TwoStep \/ During \/ NoPlan \/ BrowserStep \/ TempStep \/ ConfigStep \/ Skip \/ BeginStep \/ ServerStep \/ SpuriousStep
GenSpec == GenInit /\ [][GenNext]_<<vars, dvars, gvars>>

Over == Quiet /\ plan = "" /\ round > Len(U.rounds)
Printed == Over => PrintT("HISTORY " \o ToJson([id |-> U.id, trace |-> trace]))
AlwaysUpToDate == (Open /\ ~Drains /\ trace # <<>> /\ trace[Len(trace)].a = "obs") => UpToDate \/ temp # {}
=============================================================================
