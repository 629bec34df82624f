-------------------------------- MODULE Dev --------------------------------
(***************************************************************************)
(* The development server: the site machine of Site.tla, run again         *)
(* whenever the project has been edited, and the browsers which are        *)
(* connected to it.                                                        *)
(*                                                                         *)
(* An edit makes the project dirty.  When the server has nothing to do and *)
(* the project is dirty, it cleans the mark and builds; edits which land   *)
(* while it builds mark it again.  After a build which succeeded, all      *)
(* browsers connected at that time are told to reload.                     *)
(*                                                                         *)
(* With Drains, the mark is cleaned after the build instead, as the code   *)
(* does: edits which land while it builds are forgotten, and Converges     *)
(* fails.                                                                  *)
(***************************************************************************)
EXTENDS Site, Json, IOUtils

Given == ndJsonDeserialize(IOEnv.SITE)
UniverseOf(i) == Given[i]
Drains == IOEnv.DRAINS = "yes"

VARIABLES
  dirty,    \* the project has been edited, and has not been built since
  up,       \* the connected browsers
  told,     \* how often each browser has been told to reload
  wins,     \* the number of builds which succeeded
  since,    \* their number when each browser connected
  edits     \* the number of edits so far (of browsers' comings and goings, too)

dvars == <<dirty, up, told, wins, since, edits>>
Browsers == RangeOf(U.browsers)
\* The server builds into the same directory every time.
DevCmd == U.dev

DevInit_(i) ==
  /\ Init_(i) /\ dirty = TRUE /\ wins = 0 /\ edits = 0 /\ up = {}
  /\ told = [b \in RangeOf(Universe(i).browsers) |-> 0] /\ since = [b \in RangeOf(Universe(i).browsers) |-> 0]

Quiet == Idle /\ ~dirty

\* The project is edited, whatever the server is doing.
Change(slot, opt) ==
  /\ ch[slot] # opt
  /\ ch' = [ch EXCEPT ![slot] = opt] /\ dirty' = TRUE
  /\ UNCHANGED <<id, temp, outs, meta, ph, cmd, built, res, runs, old, up, told, wins, since>>

Connect(b) == /\ b \notin up /\ up' = up \cup {b} /\ told' = [told EXCEPT ![b] = 0] /\ since' = [since EXCEPT ![b] = wins]
              /\ UNCHANGED <<vars, dirty, wins>>
Leave(b) == b \in up /\ up' = up \ {b} /\ UNCHANGED <<vars, dirty, told, wins, since>>

Begin == /\ dirty /\ Start(DevCmd) /\ dirty' = FALSE
         /\ UNCHANGED <<up, told, wins, since>>

Step == /\ Command
        /\ IF ph' = "idle"
           THEN /\ dirty' = (IF Drains THEN FALSE ELSE dirty)
                /\ wins' = (IF res' = "ok" THEN wins + 1 ELSE wins)
                /\ told' = (IF res' = "ok" THEN [b \in DOMAIN told |-> IF b \in up THEN told[b] + 1 ELSE told[b]] ELSE told)
           ELSE UNCHANGED <<dirty, wins, told>>
        /\ UNCHANGED <<up, since>>

\* The server may take one edit for several, and build again.  This matters if there are files in
\* temp, which are published by one build only.
Spurious == /\ ph = "render" /\ ~dirty /\ old.temp # {} /\ dirty' = TRUE
            /\ UNCHANGED <<vars, up, told, wins, since>>

\* No directory has two entries of the same name.
OnDisk(fs) == \A f, g \in fs : f # g => ~IsPrefix_(f.p, g.p)
Possible == OnDisk(Content) /\ OnDisk(Static) /\ OnDisk(temp)

-----------------------------------------------------------------------------
(* All interleavings of edits and the server's steps *)

FreeInit == \E i \in 1..Len(Given) : DevInit_(i)
FreeNext ==
  \/ /\ edits < U.most /\ edits' = edits + 1
     /\ \/ \E s \in 1..Len(U.slots) : \E o \in 1..Len(U.slots[s].opts) : Change(s, o) /\ Possible'
        \/ \E b \in Browsers : Connect(b) \/ Leave(b)
        \/ Spurious
  \/ (Begin \/ Step) /\ UNCHANGED edits
FreeSpec == FreeInit /\ [][FreeNext]_<<vars, dvars>> /\ WF_<<vars, dvars>>((Begin \/ Step) /\ UNCHANGED edits)

\* What a build of the current sources would do.
Builds == /\ Manifest.ok /\ ContentOk /\ Script("pre") # "fail" /\ ~Clash(temp, Manifest)
UpToDate == /\ Quiet
            /\ Builds => outs[Resolved(DevCmd)] = Image(temp, Manifest, "development")
            /\ ~Builds => res = "fail"

\* C21: once the edits are over, the output becomes and stays that of the current sources.
Converges == <>[]UpToDate
\* (the output only ever is that of some build)
Stops == <>[]Quiet

\* C22: whoever is connected has been told of every success since, and of nothing else.
AllTold == \A b \in up : told[b] = wins - since[b]
=============================================================================
