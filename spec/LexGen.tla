------------------------------- MODULE LexGen -------------------------------
(***************************************************************************)
(* All texts up to a length over an alphabet of pieces, read by the machine *)
(* of Lexer.tla; what each of them yields is printed, to be replayed in the *)
(* real code.  [pieces |-> sequences of characters, before, after |->       *)
(* characters (before: a sequence of alternatives), max |-> n,              *)
(* vars |-> <<name, value>>s]                                               *)
(***************************************************************************)
EXTENDS Values, Lexer, Json, IOUtils

Par == ndJsonDeserialize(IOEnv.GEN)[1]
WideChars == Par.wide
PluginTable == Par.plugins
Pieces == Par.pieces

VARIABLES b,  \* which of the alternatives the text begins with
          p,  \* the text: indices into the pieces
          lx  \* the machine which has read it

FeedAll(s, cs) == FoldLeft(Feed, s, cs)

Init == p = <<>> /\ b \in 1..Len(Par.before) /\ lx = FeedAll(Lex0, Par.before[b])
Next == /\ Len(p) < Par.max /\ lx.m # "bad"
        /\ b' = b
        /\ \E k \in 1..Len(Pieces) : p' = Append(p, k) /\ lx' = FeedAll(lx, Pieces[k])
Spec == Init /\ [][Next]_<<b, p, lx>>

-----------------------------------------------------------------------------
(* What a text means in which no token but text, variables and calls of args occurs: the text it   *)
(* is replaced with, the arguments of the calls, and the line of the first variable which cannot    *)
(* be inserted.                                                                                     *)
ValueOf(q) == IF HasKey(Par.vars, q.v) THEN Walk(GetKey(Par.vars, q.v), q.path) ELSE Undef

Flat0 == [out |-> "", calls |-> <<>>, at |-> 0]
FlatStep(acc, t) ==
  IF acc.at # 0 THEN acc
  ELSE CASE t.k = "raw" -> [acc EXCEPT !.out = @ \o t.s]
         [] t.k = "var" -> IF ValueOf(t.p).t = "s" THEN [acc EXCEPT !.out = @ \o ValueOf(t.p).s] ELSE [acc EXCEPT !.at = t.ln]
         [] t.k = "args" -> [acc EXCEPT !.calls = Append(@, <<t.pos, t.named>>)]
         [] t.k = "malformed" -> [acc EXCEPT !.at = -1]
         [] OTHER -> acc

Done == Finish(FeedAll(lx, Par.after))
Flat(toks) == FoldLeft(FlatStep, Flat0, toks)
Kinds(toks) == [i \in 1..Len(toks) |-> toks[i].k]

Printed == LET d == Done IN
  PrintT("LEX " \o ToJson(IF d.bad # 0 THEN [b |-> b, p |-> p, bad |-> d.bad]
                          ELSE [b |-> b, p |-> p, bad |-> 0, f |-> Flat(d.toks), k |-> IF Par.kinds THEN Kinds(d.toks) ELSE <<>>]))

-----------------------------------------------------------------------------
(* Properties of the machine, on every text. *)

Src == Par.before[b] \o FoldLeft(LAMBDA acc, k : acc \o Pieces[k], <<>>, p) \o Par.after

\* The line of an error or of a tag is a line of the text.
LineCount(cs) == 1 + Cardinality({i \in 1..Len(cs) : cs[i] = "\n"})
LinesExist == LET d == Done IN /\ d.bad <= LineCount(Src)
                               /\ \A i \in 1..Len(d.toks) : d.toks[i].ln \in 1..LineCount(Src)

\* A text without {{ is reproduced as it is; with escapes, the text without the escaping backslashes.
Opens(cs) == {i \in 1..(Len(cs) - 1) : cs[i] = "{" /\ cs[i + 1] = "{"}
NoTagNoChange == Opens(Src) = {} => Done.bad = 0 /\ Flat(Done.toks) = [out |-> Join(Src), calls |-> <<>>, at |-> 0]

\* Every { { which is not escaped begins a tag, or is part of one.
RECURSIVE Unescape(_, _)
Unescape(cs, i) ==
  IF i > Len(cs) THEN <<>>
  ELSE IF i + 2 <= Len(cs) /\ SubSeq(cs, i, i + 2) = <<"\\", "{", "{">> THEN <<"{", "{">> \o Unescape(cs, i + 3)
  ELSE IF i + 1 <= Len(cs) /\ SubSeq(cs, i, i + 1) = <<"{", "{">> THEN <<"TAG">>
  ELSE <<cs[i]>> \o Unescape(cs, i + 1)
EscapeLaw == LET u == Unescape(Src, 1) IN
             ~Holds(u, "TAG") => Done.bad = 0 /\ Flat(Done.toks).out = Join(u) /\ Flat(Done.toks).calls = <<>>

\* Reading in two parts is the same as reading at once (there is no hidden state).
Incremental == lx = FeedAll(Lex0, Par.before[b] \o FoldLeft(LAMBDA acc, k : acc \o Pieces[k], <<>>, p))
=============================================================================
