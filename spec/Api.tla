-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* The library's calls on one Stuart: build (of sources which do or do not *)
(* build), merge, save and save_metadata, in any order.  Output exists     *)
(* only once a build has succeeded; a failed build leaves it as it was.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

VARIABLES
  out,   \* <<>>, or <<version, merged>>: the output
  v,     \* versions of the sources so far
  disk,  \* what has been saved last: <<>> or <<version, merged>>
  calls  \* the history

Max == CHOOSE n \in 1..9 : ToString(n) = IOEnv.LEN

Init == out = <<>> /\ v = 0 /\ disk = <<>> /\ calls = <<>>

Call(c) == calls' = Append(calls, c)

Build(good) ==
  /\ v' = v + 1 /\ out' = (IF good THEN <<v + 1, FALSE>> ELSE out)
  /\ Call([c |-> "build", good |-> good, v |-> v + 1, ok |-> good, saved |-> <<>>])
  /\ UNCHANGED disk

\* Merging the same directory twice is a conflict.
Merge ==
  LET ok == out # <<>> /\ ~out[2] IN
  /\ out' = (IF ok THEN <<out[1], TRUE>> ELSE out)
  /\ Call([c |-> "merge", good |-> TRUE, v |-> v, ok |-> ok, saved |-> <<>>])
  /\ UNCHANGED <<v, disk>>

Save ==
  /\ disk' = (IF out # <<>> THEN out ELSE disk)
  /\ Call([c |-> "save", good |-> TRUE, v |-> v, ok |-> out # <<>>, saved |-> disk'])
  /\ UNCHANGED <<out, v>>

Meta == /\ Call([c |-> "meta", good |-> TRUE, v |-> v, ok |-> out # <<>>, saved |-> <<>>])
        /\ UNCHANGED <<out, v, disk>>

Next == Len(calls) < Max /\ (Build(TRUE) \/ Build(FALSE) \/ Merge \/ Save \/ Meta)
Spec == Init /\ [][Next]_<<out, v, disk, calls>>

Printed == Len(calls) = Max => PrintT("CALLS " \o ToJson(calls))

\* Nothing is ever on disk which no successful build produced.
OnlyBuilt == disk # <<>> => \E i \in 1..Len(calls) : calls[i].c = "build" /\ calls[i].good /\ calls[i].v = disk[1]
=============================================================================
