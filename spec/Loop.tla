-------------------------------- MODULE Loop --------------------------------
(***************************************************************************)
(* The selection of a loop's items: all sequences of items up to a length  *)
(* over a set of items, with all options.  The laws relate the selection   *)
(* to the source; what every option selects is printed, to be replayed.    *)
(***************************************************************************)
EXTENDS Values, TLC, Json, IOUtils

\* [items |-> kinds of items, max |-> n, opts |-> options, path |-> the sort path]
Par == ndJsonDeserialize(IOEnv.LOOP)[1]
Kinds == Par.items
Opts == Par.opts

VARIABLE xs \* kinds of the items of the source

Init == xs = <<>>
Next == Len(xs) < Par.max /\ \E k \in 1..Len(Kinds) : xs' = Append(xs, k)
Spec == Init /\ [][Next]_xs

\* The items of the source carry their position.
Item(i) == Kinds[xs[i]] @@ [pos |-> i]
Source == [i \in 1..Len(xs) |-> Item(i)]
Pos(sel) == [i \in 1..Len(sel) |-> sel[i].pos]
Sel(o) == Pos(Selected(Source, o))

All(o) == [o EXCEPT !.skip = 0, !.limit = -1]
Key(i) == SortKey(Source[i], Par.path)

\* Without skip and limit, a selection is a permutation of the source.
Permutation == \A n \in 1..Len(Opts) :
  LET s == Sel(All(Opts[n])) IN Len(s) = Len(xs) /\ {s[i] : i \in 1..Len(s)} = 1..Len(xs)

\* Sorting is by key, and stable.
SortedBy == \A n \in 1..Len(Opts) :
  (Opts[n].sort /\ ~Opts[n].desc) =>
    LET s == Sel(All(Opts[n])) IN
    \A i, j \in 1..Len(s) : i < j => \/ SeqLt(Key(s[i]), Key(s[j]))
                                     \/ Key(s[i]) = Key(s[j]) /\ s[i] < s[j]

Unsorted == \A n \in 1..Len(Opts) :
  (~Opts[n].sort /\ ~Opts[n].desc) => Sel(All(Opts[n])) = [i \in 1..Len(xs) |-> i]

Descending == \A n \in 1..Len(Opts) :
  Opts[n].desc => Sel(All(Opts[n])) = Reverse(Sel([All(Opts[n]) EXCEPT !.desc = FALSE]))

\* Skip and limit take a contiguous part, of the length they say.
Window == \A n \in 1..Len(Opts) :
  LET o == Opts[n]
      w == Sel(All(o))
      s == Sel(o)
      rest == IF o.skip > Len(w) THEN 0 ELSE Len(w) - o.skip
  IN  /\ Len(s) = IF o.limit >= 0 /\ o.limit < rest THEN o.limit ELSE rest
      /\ \A i \in 1..Len(s) : s[i] = w[o.skip + i]

Printed == PrintT("SEL " \o ToJson([xs |-> xs, sel |-> [n \in 1..Len(Opts) |-> Sel(Opts[n])]]))
=============================================================================
