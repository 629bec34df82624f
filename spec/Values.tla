------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Template values: tagged JSON values, dotted paths, comparisons,         *)
(* excerpts and the ordering of loop items.                                *)
(*                                                                         *)
(*   [t |-> "s", s |-> string (, c |-> characters)]   string               *)
(*   [t |-> "n", n |-> <<a,b,c>>]                     number               *)
(*   [t |-> "b", b |-> BOOLEAN]  [t |-> "z"]          boolean, null        *)
(*   [t |-> "a", a |-> Seq(value)]                    array                *)
(*   [t |-> "o", o |-> Seq(<<key, value>>)]           object               *)
(*                                                                         *)
(* A number is given by three naturals whose lexicographic order is the    *)
(* numeric order (TLC's integers are too short for it).  A character is    *)
(* <<string, bytes in UTF-8, code point>>.                                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets

Str(s) == [t |-> "s", s |-> s]
Null   == [t |-> "z"]
Undef  == [t |-> "u"]
Obj(o) == [t |-> "o", o |-> o]
Arr(a) == [t |-> "a", a |-> a]

RangeOf(s) == {s[i] : i \in 1..Len(s)}

\* The first index of s satisfying Test, or 0.
First(s, Test(_)) ==
  LET hits == {i \in 1..Len(s) : Test(s[i])}
  IN  IF hits = {} THEN 0 ELSE CHOOSE i \in hits : \A j \in hits : i <= j

HasKey(o, k) == \E i \in 1..Len(o) : o[i][1] = k
GetKey(o, k) == o[First(o, LAMBDA e : e[1] = k)][2]
SetKey(o, k, v) ==
  IF HasKey(o, k)
  THEN LET i == First(o, LAMBDA e : e[1] = k) IN [o EXCEPT ![i] = <<k, v>>]
  ELSE Append(o, <<k, v>>)

(* A path component is [s |-> string, i |-> index or -1]. *)
RECURSIVE Walk(_, _)
Walk(v, path) ==
  IF path = <<>> THEN v
  ELSE LET c == Head(path) IN
       IF v.t = "o" /\ HasKey(v.o, c.s) THEN Walk(GetKey(v.o, c.s), Tail(path))
       ELSE IF v.t = "a" /\ c.i >= 0 /\ c.i < Len(v.a) THEN Walk(v.a[c.i + 1], Tail(path))
       ELSE Null

(***************************************************************************)
(* Comparisons.                                                            *)
(***************************************************************************)
LexLt(a, b) == \/ a[1] < b[1]
               \/ a[1] = b[1] /\ a[2] < b[2]
               \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]

Comparable(v) == v.t \in {"s", "n"}

Equal(a, b) == /\ a.t = b.t
               /\ IF a.t = "s" THEN a.s = b.s ELSE a.n = b.n
BothNumbers(a, b) == a.t = "n" /\ b.t = "n"

Compare(op, a, b) ==
  CASE op = "ifeq" -> Equal(a, b)
    [] op = "ifne" -> ~Equal(a, b)
    [] op = "ifgt" -> BothNumbers(a, b) /\ LexLt(b.n, a.n)
    [] op = "ifge" -> BothNumbers(a, b) /\ ~LexLt(a.n, b.n)
    [] op = "iflt" -> BothNumbers(a, b) /\ LexLt(a.n, b.n)
    [] op = "ifle" -> BothNumbers(a, b) /\ ~LexLt(b.n, a.n)

(***************************************************************************)
(* Characters, excerpts and words.                                         *)
(***************************************************************************)
\* Strings without their characters given are ASCII.
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code(c) == LET hits == {i \in 1..95 : SubSeq(Ascii, i, i) = c}
           IN  IF hits # {} THEN 31 + CHOOSE i \in hits : TRUE
               ELSE CASE c = "\n" -> 10 [] c = "\t" -> 9 [] c = "\r" -> 13 [] c = "\f" -> 12 [] OTHER -> 0
Chars(v) == IF "c" \in DOMAIN v THEN v.c
            ELSE [i \in 1..Len(v.s) |-> LET c == SubSeq(v.s, i, i) IN <<c, 1, Code(c)>>]

\* The state of an excerpt being cut: the next character, the bytes and the text so far.
ExcerptStep(cs, n, st) ==
  IF st.bytes >= n \/ st.next > Len(cs) THEN st
  ELSE LET c == cs[st.next] IN
       CASE c[1] = "<" -> [st EXCEPT !.next = @ + 1, !.tag = TRUE]
         [] c[1] = ">" -> [st EXCEPT !.next = @ + 1, !.tag = FALSE]
         [] OTHER -> IF st.tag THEN [st EXCEPT !.next = @ + 1]
                     ELSE [st EXCEPT !.next = @ + 1, !.bytes = @ + c[2], !.text = @ \o c[1]]

Excerpt(v, n) ==
  LET cs  == Chars(v)
      end == FoldLeft(LAMBDA st, c : ExcerptStep(cs, n, st),
                      [next |-> 1, bytes |-> 0, text |-> "", tag |-> FALSE], cs)
  IN  IF end.next <= Len(cs) THEN end.text \o "..." ELSE end.text

\* White space as in Unicode's White_Space (those code points which the cases use).
WhiteSpace == {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8192, 8195, 8232, 8233, 8239, 8287, 12288}
IsSpace(c) == c[3] \in WhiteSpace

Words(v) ==
  LET cs == Chars(v)
  IN  Cardinality({i \in 1..Len(cs) : ~IsSpace(cs[i]) /\ (i = 1 \/ IsSpace(cs[i-1]))})

Minutes(v) == LET m == Words(v) \div 200 IN IF m < 1 THEN 1 ELSE m

(***************************************************************************)
(* The items of a loop.                                                    *)
(***************************************************************************)
\* The sort key of an item: the code points of its string property, or none.
SortKey(v, path) ==
  LET k == Walk(v, path)
  IN  IF k.t = "s" THEN [i \in 1..Len(Chars(k)) |-> Chars(k)[i][3]] ELSE <<>>

RECURSIVE SeqLt(_, _)
SeqLt(a, b) == IF b = <<>> THEN FALSE
               ELSE IF a = <<>> THEN TRUE
               ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
               ELSE SeqLt(Tail(a), Tail(b))

\* Inserts an item after every item whose key is not greater: sorting is stable.
InsertSorted(sorted, v, path) ==
  LET k == SortKey(v, path)
      n == Cardinality({i \in 1..Len(sorted) : ~SeqLt(k, SortKey(sorted[i], path))})
  IN  SubSeq(sorted, 1, n) \o <<v>> \o SubSeq(sorted, n + 1, Len(sorted))

Sorted(items, path) == FoldLeft(LAMBDA acc, v : InsertSorted(acc, v, path), <<>>, items)

(* opt: [sort |-> BOOLEAN, path |-> path, desc |-> BOOLEAN, skip |-> n, limit |-> n or -1] *)
Selected(items, opt) ==
  LET s == IF opt.sort THEN Sorted(items, opt.path) ELSE items
      d == IF opt.desc THEN Reverse(s) ELSE s
      k == SubSeq(d, opt.skip + 1, Len(d))
  IN  IF opt.limit >= 0 /\ opt.limit < Len(k) THEN SubSeq(k, 1, opt.limit) ELSE k
=============================================================================
