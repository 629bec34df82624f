------------------------------ MODULE SiteGen ------------------------------
(***************************************************************************)
(* All histories of edits and commands of a universe, within bounds; the   *)
(* expected observations of each are printed, to be replayed with the real *)
(* command line.  Where the specification leaves a choice, there are        *)
(* several histories of the same edits and commands.                       *)
(*                                                                         *)
(* A history alternates edits and commands: before the n-th command, there *)
(* are up to rounds[n].edits edits (each of another slot); commands are    *)
(* those of rounds[n].cmds.                                                *)
(***************************************************************************)
EXTENDS Site, Json, IOUtils

Given == ndJsonDeserialize(IOEnv.SITE)
UniverseOf(i) == Given[i]

VARIABLES
  round,  \* the current round
  edits,  \* the slots edited in this round
  trace   \* the history so far: edits, and the observations after each command

gvars == <<round, edits, trace>>

GenInit == (\E i \in 1..Len(Given) : Init_(i)) /\ round = 1 /\ edits = {} /\ trace = <<>>

Round == U.rounds[round]
Open == Idle /\ round <= Len(U.rounds)

EditStep(slot, opt) ==
  /\ Open /\ Cardinality(edits) < Round.edits
  /\ slot \in RangeOf(Round.slots) /\ \A e \in edits : e < slot
  /\ Edit(slot, opt)
  /\ edits' = edits \cup {slot}
  /\ trace' = Append(trace, [a |-> "edit", slot |-> slot, opt |-> opt])
  /\ UNCHANGED round

TempStep(f) ==
  /\ Open /\ 0 \notin edits /\ Cardinality(edits) < Round.edits
  /\ PutTemp(f)
  /\ edits' = edits \cup {0}
  /\ trace' = Append(trace, [a |-> "temp", f |-> f])
  /\ UNCHANGED round

\* No directory has two entries of the same name.
OnDisk(fs) == \A f, g \in fs : f # g => ~IsPrefix_(f.p, g.p)
Possible == OnDisk(Content) /\ OnDisk(Static) /\ OnDisk(temp)

StartStep(c) ==
  /\ Open /\ Possible /\ Start(c)
  /\ trace' = Append(trace, [a |-> "cmd", c |-> c])
  /\ UNCHANGED <<round, edits>>

Done(t) == t = Absent
Tree(t) == IF Done(t) THEN <<>> ELSE <<SetToSeq(t)>>
Optional(m) == IF m = <<>> THEN <<>> ELSE <<m>>

Observation == [a |-> "obs", ok |-> res' = "ok", said |-> SaidOf(cmd', res'),
                told |-> IF res' = "fail" THEN LET t == Told(ph, runs', temp) IN [t EXCEPT !.clash = SetToSeq(@)] ELSE [script |-> "", clash |-> <<>>], temp |-> SetToSeq({<<f.p, f.b>> : f \in temp'}),
                outs |-> SetToSeq({<<o, Tree(outs'[o])>> : o \in DOMAIN outs'}), meta |-> Optional(meta'),
                runs |-> [i \in 1..Len(runs') |-> [which |-> runs'[i].which, name |-> runs'[i].name, out |-> Tree(runs'[i].out), meta |-> Optional(runs'[i].meta),
                                                   temp |-> SetToSeq(runs'[i].temp), env |-> runs'[i].env]]]

CommandStep ==
  /\ Command
  /\ IF ph' = "idle"
     THEN round' = round + 1 /\ edits' = {} /\ trace' = Append(trace, Observation)
     ELSE UNCHANGED gvars

GenNext ==
  \/ \E s \in 1..Len(U.slots) : \E o \in 1..Len(U.slots[s].opts) : EditStep(s, o)
  \/ \E i \in 1..Len(U.temps) : TempStep(U.temps[i])
  \/ \E i \in 1..(IF Open THEN Len(Round.cmds) ELSE 0) : StartStep(Round.cmds[i])
  \/ CommandStep

GenSpec == GenInit /\ [][GenNext]_<<vars, gvars>>

Over == Idle /\ round > Len(U.rounds)
Printed == Over => PrintT("HISTORY " \o ToJson([id |-> U.id, trace |-> trace]))

\* No command changes the sources.
SourcesKept == [][~Idle => ch' = ch]_<<vars, gvars>>
=============================================================================
