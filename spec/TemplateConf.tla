---------------------------- MODULE TemplateConf ----------------------------
(***************************************************************************)
(* Conformance of recorded builds to Template.tla: each case is a project  *)
(* together with what the real code did with it.  TLC runs the machine on  *)
(* every project and compares the outcomes.                                *)
(***************************************************************************)
EXTENDS Template, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
CaseOf(i) == Cases[i]

\* The observation of the current case:
\*   [ok, out |-> <<page path string, text>>s, probes |-> <<id, values>>s, at |-> <<path, line>>]
Obs == Cases[prj].obs

ConfInit == \E i \in 1..Len(Cases) : InitProject(i)
ConfNext == Step \/ (Finished /\ UNCHANGED vars)
ConfSpec == ConfInit /\ [][ConfNext]_vars

\* What may be checked about a case (an observation may leave the rest out).
Checks == Cases[prj].checks

Has(what) == \E i \in 1..Len(Checks) : Checks[i] = what

SameOuts ==
  /\ Len(Obs.out) = Len(outs)
  /\ \A i \in 1..Len(outs) :
       \E j \in 1..Len(Obs.out) : Obs.out[j] = <<PathStr(File(outs[i][1]).p), outs[i][2]>>

\* Probes of one place in one file are in order; files may be rendered in any order.
ById(ps, id) == SelectSeq(ps, LAMBDA p : p[1] = id)
SameProbes ==
  /\ Len(Obs.probes) = Len(probes)
  /\ \A i \in 1..Len(probes) : ById(probes, probes[i][1]) = ById(Obs.probes, probes[i][1])

\* The same, where a place is executed for several pages.
Count(ps, x) == Cardinality({i \in 1..Len(ps) : ps[i] = x})
SameBag ==
  /\ Len(Obs.probes) = Len(probes)
  /\ \A i \in 1..Len(probes) : Count(probes, probes[i]) = Count(Obs.probes, probes[i])

Agrees ==
  /\ Obs.ok = (errs = {})
  /\ (Obs.ok /\ Has("out")) => SameOuts
  /\ (Obs.ok /\ Has("probes")) => SameProbes
  /\ (Obs.ok /\ Has("bag")) => SameBag
  /\ (~Obs.ok /\ Has("at")) => <<Obs.at[1], Obs.at[2]>> \in errs

Report == [id |-> Cases[prj].id, ok |-> (errs = {}), errs |-> SetToSeq(errs),
           out |-> [i \in 1..Len(outs) |-> <<PathStr(File(outs[i][1]).p), outs[i][2]>>],
           probes |-> probes]

\* Disagreements are printed, one line each, so that one run reports all of them.  (TLC checks for
\* deadlock, so every case is run to its end.)
Conforms == Finished => (Agrees \/ PrintT("MISMATCH " \o ToJson(Report)))
=============================================================================
