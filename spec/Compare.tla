------------------------------ MODULE Compare ------------------------------
(***************************************************************************)
(* The truth table of the six comparisons over a set of operands, and the  *)
(* laws which it must satisfy.  The states are the pairs (and triples) of  *)
(* operands; the table is printed to be replayed in the real code.         *)
(***************************************************************************)
EXTENDS Values, TLC, Json, IOUtils

Operands == ndJsonDeserialize(IOEnv.OPERANDS)
N == Len(Operands)
V(i) == Operands[i]

VARIABLES a, b, c \* c = 0: a pair, else a triple

Init == a \in 1..N /\ b \in 1..N /\ c = 0
Next == /\ c = 0 /\ c' \in 1..N /\ Comparable(V(a)) /\ Comparable(V(b)) /\ Comparable(V(c'))
        /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b, c>>

Eq(x, y) == Compare("ifeq", V(x), V(y))
Ne(x, y) == Compare("ifne", V(x), V(y))
Gt(x, y) == Compare("ifgt", V(x), V(y))
Ge(x, y) == Compare("ifge", V(x), V(y))
Lt(x, y) == Compare("iflt", V(x), V(y))
Le(x, y) == Compare("ifle", V(x), V(y))

Defined == Comparable(V(a)) /\ Comparable(V(b))
Numbers == V(a).t = "n" /\ V(b).t = "n"

One(P, Q, R) == (P /\ ~Q /\ ~R) \/ (~P /\ Q /\ ~R) \/ (~P /\ ~Q /\ R)

NegationLaw   == Defined => (Ne(a, b) = ~Eq(a, b))
Trichotomy    == (Defined /\ Numbers) => One(Lt(a, b), Eq(a, b), Gt(a, b))
Inclusive     == (Defined /\ Numbers) => /\ Ge(a, b) = (Gt(a, b) \/ Eq(a, b))
                                         /\ Le(a, b) = (Lt(a, b) \/ Eq(a, b))
Symmetry      == Defined => /\ Eq(a, b) = Eq(b, a) /\ Lt(a, b) = Gt(b, a) /\ Le(a, b) = Ge(b, a)
Reflexive     == Defined => Eq(a, a)
Unordered     == (Defined /\ ~Numbers) => ~(Lt(a, b) \/ Le(a, b) \/ Gt(a, b) \/ Ge(a, b))
Typed         == (Defined /\ V(a).t # V(b).t) => ~Eq(a, b)
Transitive    == c # 0 => /\ (Lt(a, b) /\ Lt(b, c)) => Lt(a, c)
                          /\ (Le(a, b) /\ Le(b, c)) => Le(a, c)
                          /\ (Eq(a, b) /\ Eq(b, c)) => Eq(a, c)
                          /\ (Eq(a, b) /\ Lt(b, c)) => Lt(a, c)

Row == [a |-> a, b |-> b, ok |-> Defined,
        r |-> IF Defined THEN <<Eq(a, b), Ne(a, b), Gt(a, b), Ge(a, b), Lt(a, b), Le(a, b)>> ELSE <<>>]
Printed == c = 0 => PrintT("ROW " \o ToJson(Row))
=============================================================================
