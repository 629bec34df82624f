---------------------------- MODULE TemplateGen ----------------------------
(***************************************************************************)
(* All template programs up to a length over an alphabet, each run by the  *)
(* machine of Template.tla and compared with a second, structural          *)
(* definition of what it means.  The outcome of every program is printed,  *)
(* to be replayed in the real code.                                        *)
(*                                                                         *)
(* The project is given as JSON: [files, env, alphabet, hole, max, before, *)
(* after]: the tokens of file number `hole` are before \o program \o after.*)
(* The i-th token of the program stands on line i of its file (every raw   *)
(* token is the number of its line).  `secs` are the sections which already *)
(* exist when the program starts.  With `close`, programs need not close    *)
(* their blocks: these are closed after them.                               *)
(***************************************************************************)
EXTENDS Template, Json, IOUtils

Gen == ndJsonDeserialize(IOEnv.GEN)[1]
Alphabet == Gen.alphabet

Before == Gen.before
After == Gen.after
Line0 == Len(Before)

Numbered(t, ln) == IF t.k = "raw" THEN [t EXCEPT !.ln = ln, !.s = ToString(ln) \o "\n"]
                   ELSE [t EXCEPT !.ln = ln]

-----------------------------------------------------------------------------
(* Static structure *)

KindOf(t) == CASE t.k = "begin" -> "begin"
               [] t.k = "if" -> t.op
               [] t.k = "ifdef" -> "ifdefined"
               [] t.k = "for" -> "for"

Closes(open, t) == \/ t.k = "endf" /\ KindOf(open) = t.f
                   \/ t.k = "endl" /\ open.k = "begin" /\ open.l = t.l

Bad == << [k |-> "bad"] >>

\* The openers of the blocks open after a token, or Bad for good.
StaticStep(open, t) ==
  IF open = Bad THEN open
  ELSE IF Opener(t) THEN Append(open, t)
  ELSE IF Closer(t) THEN
    IF open # <<>> /\ Closes(open[Len(open)], t) THEN SubSeq(open, 1, Len(open) - 1) ELSE Bad
  ELSE IF t.k = "else" THEN
    IF open # <<>> /\ KindOf(open[Len(open)]) \in IfKinds THEN open ELSE Bad
  ELSE open

OpenAfter(ts) == FoldLeft(StaticStep, <<>>, ts)
WellNested(ts) == OpenAfter(ts) = <<>>

CloserOf(t) == IF t.k = "begin" THEN [k |-> "endl", l |-> t.l, ln |-> 0] ELSE [k |-> "endf", f |-> KindOf(t), ln |-> 0]

Tokens(p) == [i \in 1..Len(p) |-> Alphabet[p[i]]]

\* What is open if closers and elses which are wrong where they stand are taken for right: were these
\* accepted, nothing else would be wrong.
Leniently(open, t) ==
  IF Opener(t) THEN Append(open, t)
  ELSE IF Closer(t) THEN SubSeq(open, 1, Len(open) - 1)
  ELSE open

\* With `close`, what a program leaves open is closed after it.
Closers(p) ==
  LET open == FoldLeft(Leniently, <<>>, Tokens(p))
  IN  IF Gen.close THEN [i \in 1..Len(open) |-> CloserOf(open[Len(open) + 1 - i])] ELSE <<>>

\* These then add nothing: a shorter program is the same.
Redundant(p) ==
  /\ Gen.close /\ p # <<>>
  /\ LET ts == Tokens(p)
         n == Len(ts)
         open == OpenAfter(SubSeq(ts, 1, n - 1))
     IN  IF open = Bad THEN TRUE
         ELSE IF Closer(ts[n]) /\ open # <<>> THEN ts[n] = [CloserOf(open[Len(open)]) EXCEPT !.ln = ts[n].ln] ELSE FALSE

ProgramOf(p) ==
  LET ts == Before \o Tokens(p) \o Closers(p) \o After
  IN  [i \in 1..Len(ts) |-> Numbered(ts[i], i)]

ProjectOf(p) == [files |-> [Gen.files EXCEPT ![Gen.hole].t = ProgramOf(p)], env |-> Gen.env]

\* prj is the program (indices into the alphabet) while and after it is written.
GenInit ==
  /\ InitProject(<<>>)

\* Texts next to each other tell nothing that one text does not.
Useful(p, k) == ~(Alphabet[k].k = "raw" /\ p # <<>> /\ Alphabet[p[Len(p)]].k = "raw")

Unstarted == st = "idle" /\ job.ph = "none"

Write ==
  /\ Unstarted /\ Len(prj) < Gen.max
  /\ \E k \in 1..Len(Alphabet) : Useful(prj, k) /\ prj' = Append(prj, k)
  /\ UNCHANGED <<st, todo, job, pc, stk, secs, html, outs, probes, errs, hist>>

GenNext == Write \/ (Step /\ (Unstarted => ~Redundant(prj))) \/ (Unstarted /\ Redundant(prj) /\ UNCHANGED vars) \/ (Finished /\ UNCHANGED vars)
GenSpec == GenInit /\ [][GenNext]_vars

\* C08: under weak fairness of the machine's steps, every program which is started ends.
FairSpec == GenSpec /\ WF_vars(Step)
Terminates == (~Unstarted) ~> Finished

-----------------------------------------------------------------------------
(* What a well nested program means, by recursion on its structure.        *)
(* r: [ok, out, secs, bind |-> bindings of the enclosing blocks]           *)

RECURSIVE MatchFrom(_, _, _)
MatchFrom(ts, j, depth) ==
  IF Closer(ts[j]) THEN IF depth = 0 THEN j ELSE MatchFrom(ts, j + 1, depth - 1)
  ELSE MatchFrom(ts, j + 1, IF Opener(ts[j]) THEN depth + 1 ELSE depth)
Match(ts, i) == MatchFrom(ts, i + 1, 0)

DepthAt(ts, i, j) == Cardinality({n \in i+1..j : Opener(ts[n])}) - Cardinality({n \in i+1..j : Closer(ts[n])})

\* The positions of the elses of the block opened at i.
Elses(ts, i) == {j \in i+1..Match(ts, i)-1 : ts[j].k = "else" /\ DepthAt(ts, i, j) = 0}

\* The body of the conditional at i without the parts which are not taken (and without its elses).
Taken(ts, i, cond) ==
  LET es == Elses(ts, i)
      in(j) == (Cardinality({e \in es : e < j}) % 2 = 0) = cond
  IN  SelectSeq([j \in 1..Match(ts, i)-1 |-> <<j, ts[j]>>],
                LAMBDA x : x[1] > i /\ x[1] \notin es /\ in(x[1]))

Bound(bind, p) ==
  LET hits == {n \in 1..Len(bind) : HasKey(bind[n], p.v)}
  IN  IF hits = {} THEN Undef
      ELSE Walk(GetKey(bind[CHOOSE n \in hits : \A m \in hits : m <= n], p.v), p.path)

OperandIn(bind, a) == CASE a.k = "var" -> Bound(bind, a.p)
                        [] a.k = "str" -> Str(a.s)
                        [] a.k = "int" -> [t |-> "n", n |-> a.n]

Wrong(r) == [r EXCEPT !.ok = FALSE]

RECURSIVE Mean(_, _)
\* The meaning of a block with the given body, which starts with the given bindings of its own.
BlockMean(ts, own, r) ==
  LET inner == Mean(ts, [r EXCEPT !.out = "", !.bind = Append(@, own)])
  IN  [inner EXCEPT !.bind = r.bind, !.out = r.out \o inner.out]

Mean(ts, r) ==
  IF ts = <<>> \/ ~r.ok THEN r
  ELSE
  LET t    == Head(ts)
      rest == Tail(ts)
      m    == Match(ts, 1)
      body == SubSeq(ts, 2, m - 1)
      more == SubSeq(ts, m + 1, Len(ts))
      top  == r.bind[Len(r.bind)]
  IN
  CASE t.k = "raw" -> Mean(rest, [r EXCEPT !.out = @ \o t.s])
    [] t.k = "var" ->
         IF Bound(r.bind, t.p).t = "s" THEN Mean(rest, [r EXCEPT !.out = @ \o Bound(r.bind, t.p).s]) ELSE Wrong(r)
    [] t.k = "import" ->
         LET f == At(NormComps(t.path)) IN
         IF Inside(t.path) /\ f # Nothing /\ File(f).k = "json" /\ ~HasKey(top, t.v)
         THEN Mean(rest, [r EXCEPT !.bind[Len(r.bind)] = Append(@, <<t.v, File(f).v>>)])
         ELSE Wrong(r)
    [] t.k = "insert" ->
         IF HasKey(r.secs, t.l) THEN Mean(rest, [r EXCEPT !.out = @ \o GetKey(r.secs, t.l)]) ELSE Wrong(r)
    [] t.k = "bind" -> Mean(rest, [r EXCEPT !.bind[Len(r.bind)] = Append(@, <<t.v, Str(t.s)>>)])
    [] t.k = "fail" -> Wrong(r)
    [] t.k \in {"excerpt", "ttr"} ->
         LET v == Bound(r.bind, t.p) IN
         IF v.t # "s" THEN Wrong(r)
         ELSE Mean(rest, [r EXCEPT !.out = @ \o IF t.k = "ttr" THEN ToString(Minutes(v)) ELSE Excerpt(v, t.n)])
    [] t.k = "begin" ->
         LET inner == Mean(body, [r EXCEPT !.out = "", !.bind = Append(@, <<>>)])
         IN  Mean(more, [inner EXCEPT !.bind = r.bind, !.out = r.out \o inner.out,
                         !.secs = IF ts[m].k = "endl" THEN Append(@, <<t.l, inner.out>>) ELSE @])
    [] t.k \in {"if", "ifdef"} ->
         LET a == IF t.k = "if" THEN OperandIn(r.bind, t.a) ELSE Null
             b == IF t.k = "if" THEN OperandIn(r.bind, t.b) ELSE Null
             cond == IF t.k = "if" THEN Compare(t.op, a, b) ELSE Bound(r.bind, t.p).t \notin {"u", "z"}
             part == Taken(ts, 1, cond)
         IN  IF t.k = "if" /\ ~(Comparable(a) /\ Comparable(b)) THEN Wrong(r)
             ELSE Mean(more, BlockMean([i \in 1..Len(part) |-> part[i][2]], <<>>, r))
    [] t.k = "for" ->
         LET src == IF t.src.k = "var" THEN Bound(r.bind, t.src.p) ELSE Items(t.src)
         IN  IF src.t # "a" THEN Wrong(r)
             ELSE Mean(more, FoldLeft(LAMBDA acc, v : IF acc.ok THEN BlockMean(body, << <<t.v, v>> >>, acc) ELSE acc,
                                      r, Selected(src.a, t.opt)))

\* What is bound when the program starts.
Given == << <<"env", Gen.env>> >> \o
         IF job.ph = "page" /\ File(job.f).k = "md" THEN << <<"self", MdValue(job.f, TRUE)>> >> ELSE <<>>

Meaning(ts) == Mean(ts, [ok |-> TRUE, out |-> "", secs |-> Gen.secs, bind |-> <<Given>>])

-----------------------------------------------------------------------------
(* Properties *)

\* C01: what was executed is balanced whenever a file is accepted.
HistStep(open, h) ==
  IF open = <<"bad">> THEN open
  ELSE IF h[1] = "open" THEN Append(open, h[2])
  ELSE IF open # <<>> /\ open[Len(open)] = h[2] THEN SubSeq(open, 1, Len(open) - 1) ELSE <<"bad">>

AcceptedIsBalanced == JobComplete => FoldLeft(HistStep, <<>>, hist) = <<>>

InHole == job.src = Gen.hole
Whole == ProgramOf(prj)

\* C01: where nothing can be skipped, exactly the well nested programs are accepted.
Straight == \A i \in 1..Len(Whole) :
  \/ Whole[i].k \in {"raw", "begin", "endl", "endf", "else"}
  \/ Whole[i].k = "for" /\ Whole[i].src.k = "file" /\ Items(Whole[i].src).t = "a"
     /\ Selected(Items(Whole[i].src).a, Whole[i].opt) # <<>>

UnbalancedIsRefused == (Finished /\ Straight /\ ~WellNested(Whole)) => errs # {}

\* C01-C06: a well nested program does what it means.
Means ==
  (InHole /\ (JobComplete \/ (st = "idle" /\ errs # {})) /\ WellNested(Whole)) =>
     LET m == Meaning(Whole)
     IN  IF JobComplete THEN m.ok /\ Top.out = m.out /\ secs = m.secs ELSE ~m.ok

\* A frame's bookkeeping is consistent.
FramesOk == \A i \in 1..Len(stk) :
  /\ (stk[i].kind = "base") = (i = 1)
  /\ (~stk[i].cond) => i = Len(stk)
  /\ stk[i].skip > 0 => ~stk[i].cond
  /\ stk[i].cond => stk[i].skip = 0

Outcome == [p |-> prj, c |-> Closers(prj), ok |-> (errs = {}), out |-> [i \in 1..Len(outs) |-> outs[i][2]],
            at |-> SetToSeq(errs)]

Printed == Finished => PrintT("PROGRAM " \o ToJson(Outcome))
=============================================================================
