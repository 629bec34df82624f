-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* excerpt and timetoread on all strings up to a length over an alphabet   *)
(* of characters <<character, bytes, code point>>, with the laws that they *)
(* satisfy; the results are printed, to be replayed in the real code.      *)
(***************************************************************************)
EXTENDS Values, TLC, Json, IOUtils

\* [chars |-> alphabet, max |-> n, over |-> how much longer than the string an excerpt may be asked]
Par == ndJsonDeserialize(IOEnv.TEXT)[1]
Alphabet == Par.chars

VARIABLE str \* indices into the alphabet

Init == str = <<>>
Next == Len(str) < Par.max /\ \E k \in 1..Len(Alphabet) : str' = Append(str, k)
Spec == Init /\ [][Next]_str

V == [t |-> "s", s |-> "", c |-> [i \in 1..Len(str) |-> Alphabet[str[i]]]]
Bytes == FoldLeft(LAMBDA acc, c : acc + c[2], 0, V.c)
Lengths == 0..(Bytes + Par.over)

\* The text outside markup, by position: character i is shown iff the last < or > before it, and
\* itself, open no tag.
Brackets(i) == {j \in 1..i : V.c[j][1] \in {"<", ">"}}
MaxOf(set) == CHOOSE x \in set : \A y \in set : y <= x
Shown(i) == /\ V.c[i][1] \notin {"<", ">"}
            /\ Brackets(i) # {} => V.c[MaxOf(Brackets(i))][1] = ">"

ShownText(i) == FoldLeft(LAMBDA acc, j : IF Shown(j) THEN acc \o V.c[j][1] ELSE acc, "", [j \in 1..i |-> j])
ShownBytes(i) == FoldLeft(LAMBDA acc, j : IF Shown(j) THEN acc + V.c[j][2] ELSE acc, 0, [j \in 1..i |-> j])

\* An excerpt is the shown text of the shortest prefix with n bytes of it (or of everything),
\* followed by ... if and only if that prefix is proper.
ExcerptLaw == \A n \in Lengths :
  LET enough == {i \in 0..Len(str) : ShownBytes(i) >= n}
      cut == IF enough = {} THEN Len(str) ELSE CHOOSE i \in enough : \A j \in enough : i <= j
  IN  Excerpt(V, n) = ShownText(cut) \o (IF cut < Len(str) THEN "..." ELSE "")

\* It is never longer than asked by more than one character less a byte.
Bound == \A n \in Lengths :
  LET enough == {i \in 0..Len(str) : ShownBytes(i) >= n}
  IN  enough # {} => ShownBytes(CHOOSE i \in enough : \A j \in enough : i <= j) <= n + 3

Printed == PrintT("TEXT " \o ToJson([str |-> str, ex |-> [n \in 1..(Bytes + Par.over + 1) |-> Excerpt(V, n - 1)],
                                     words |-> Words(V), min |-> Minutes(V)]))
=============================================================================
