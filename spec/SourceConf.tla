----------------------------- MODULE SourceConf -----------------------------
(***************************************************************************)
(* Conformance of recorded builds to Source.tla: each case is a project as *)
(* text together with what the real code did with it.                      *)
(***************************************************************************)
EXTENDS Source, Json, IOUtils

Given == ndJsonDeserialize(IOEnv.CASES)
Setup == ndJsonDeserialize(IOEnv.SETUP)[1]
WideChars == Setup.wide
PluginTable == Setup.plugins

\* Every file is read once.
Read1(c) == [files |-> TLCEval([i \in 1..Len(c.files) |-> Read(c.files[i])]), env |-> c.env, md |-> c.md]
Cases == TLCEval([i \in 1..Len(Given) |-> Read1(Given[i])])
CaseOf(i) == Cases[i]
Obs == Given[prj].obs

ConfInit == \E i \in 1..Len(Given) : InitSource(i)
ConfNext == Step \/ (Finished /\ UNCHANGED vars)
ConfSpec == ConfInit /\ [][ConfNext]_vars

Checks == Given[prj].checks
Asked(what) == \E i \in 1..Len(Checks) : Checks[i] = what

SameOuts ==
  /\ Len(Obs.out) = Len(outs)
  /\ \A i \in 1..Len(outs) :
       \E j \in 1..Len(Obs.out) : Obs.out[j] = <<PathStr(File(outs[i][1]).p), outs[i][2]>>

Count(ps, x) == Cardinality({i \in 1..Len(ps) : ps[i] = x})
SameBag ==
  /\ Len(Obs.probes) = Len(probes)
  /\ \A i \in 1..Len(probes) : Count(probes, probes[i]) = Count(Obs.probes, probes[i])

\* A message quotes the line at fault, if the file has such a line.
QuoteOf(path, n) ==
  LET is == {i \in 1..Len(Given[prj].files) : PathStr(Given[prj].files[i].p) = path}
  IN  IF is = {} \/ n = 0 THEN <<>>
      ELSE LET lines == LinesOf(Given[prj].files[CHOOSE i \in is : TRUE].c)
           IN  IF n > Len(lines) THEN <<>> ELSE <<ToString(n), Join(lines[n])>>

Agrees ==
  /\ Obs.ok = (errs = {})
  /\ (Obs.ok /\ Asked("out")) => SameOuts
  /\ (Obs.ok /\ Asked("bag")) => SameBag
  /\ (~Obs.ok /\ Asked("at")) => <<Obs.at[1], Obs.at[2]>> \in errs
  /\ (~Obs.ok /\ Asked("quote")) => Obs.quote = QuoteOf(Obs.at[1], Obs.at[2])

Report == [id |-> Given[prj].id, ok |-> (errs = {}), errs |-> SetToSeq(errs),
           quote |-> (IF Asked("quote") /\ ~Obs.ok THEN QuoteOf(Obs.at[1], Obs.at[2]) ELSE <<>>),
           out |-> [i \in 1..Len(outs) |-> <<PathStr(File(outs[i][1]).p), outs[i][2]>>],
           probes |-> probes]

(* The bodies as they are once their tags are executed, for the rendering to be given. *)
Bodies == (JobComplete /\ job.ph = "body") => PrintT("BODY " \o ToJson([id |-> Given[prj].id, s |-> Top.out]))
OnlyBodies == job.ph \in {"none", "body"}

Conforms == Finished => (Agrees \/ PrintT("MISMATCH " \o ToJson(Report)))
=============================================================================
