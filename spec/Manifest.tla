------------------------------ MODULE Manifest ------------------------------
(***************************************************************************)
(* All manifests made of up to a number of lines, and what each means: the *)
(* configuration of the site, or the lines of which one must be named by   *)
(* the error.  A line is                                                   *)
(*   [k |-> "head", t |-> table]         [site]                            *)
(*   [k |-> "kv", key, ty, v]            name = "N"                        *)
(*   [k |-> "bad"]                       not TOML                          *)
(*   [k |-> "blank"]                     nothing, or a comment             *)
(* The meanings are printed, to be replayed with the command line.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Par == ndJsonDeserialize(IOEnv.GEN)[1]
Lines == Par.lines

VARIABLE p
Init == p \in {<<>>, Par.before}
\* Blank lines next to each other tell nothing that one does not.
Useful(k) == ~(p # <<>> /\ Lines[k].k = "blank" /\ Lines[p[Len(p)]].k = "blank")
\* Whole manifests of up to max lines, and the same below a valid beginning.
Next == Len(p) < (IF IsPrefix(Par.before, p) THEN Len(Par.before) + Par.more ELSE Par.max) /\ \E k \in 1..Len(Lines) : Useful(k) /\ p' = Append(p, k)
Spec == Init /\ [][Next]_p

L(i) == Lines[p[i]]
N == Len(p)

\* The table which is open at line i, and the line of its header (0 for the root).
RECURSIVE HeadOf(_)
HeadOf(i) == IF i = 0 THEN 0 ELSE IF L(i).k = "head" THEN i ELSE HeadOf(i - 1)
TableAt(i) == IF HeadOf(i) = 0 THEN "" ELSE L(HeadOf(i)).t

Heads(t) == {i \in 1..N : L(i).k = "head" /\ L(i).t = t}
Entries(t, key) == {i \in 1..N : L(i).k = "kv" /\ L(i).key = key /\ TableAt(i) = t}

Tables == {"site", "settings", "dependencies"}
Known == {<<"site", "name", "str">>, <<"site", "author", "str">>, <<"settings", "strip_extensions", "bool">>,
          <<"settings", "save_data_files", "bool">>, <<"settings", "save_metadata", "bool">>}
          \cup {<<"", t, "table">> : t \in Tables}

Syntax == {i \in 1..N : L(i).k = "bad"}
TwiceHead == UNION {IF Cardinality(Heads(t)) > 1 THEN Heads(t) ELSE {} : t \in {L(i).t : i \in {j \in 1..N : L(j).k = "head"}}}
\* An entry which is there twice stands on no one line.
TwiceKey == IF \E k \in Known : Cardinality(Entries(k[1], k[2])) > 1 THEN 0..N ELSE {}
\* A table cannot also be a value.
TableValue == UNION {IF Heads(t) # {} /\ Entries("", t) # {} THEN Heads(t) \cup Entries("", t) ELSE {} : t \in Tables}
WrongType == UNION {{i \in Entries(k[1], k[2]) : L(i).ty # k[3]} : k \in Known}
             \cup {i \in 1..N : L(i).k = "kv" /\ TableAt(i) = "dependencies" /\ L(i).ty # "str"}
\* What is missing stands on no line: only the manifest must be named.
NoName == IF \E h \in Heads("site") : Entries("site", "name") = {} THEN 0..N ELSE {}
NoSite == IF Heads("site") = {} THEN 0..N ELSE {}

\* None of the strings is the source of a plugin; this is not an error of the manifest itself.
NoPlugin == IF \E i \in 1..N : L(i).k = "kv" /\ TableAt(i) = "dependencies" THEN 0..N ELSE {}

Errors == NoPlugin \cup Syntax \cup TwiceHead \cup TwiceKey \cup TableValue \cup WrongType \cup NoName \cup NoSite

Value(t, key, default) == IF Entries(t, key) = {} THEN default ELSE L(CHOOSE i \in Entries(t, key) : TRUE).v
Config == [name |-> Value("site", "name", ""), author |-> Value("site", "author", "(none)"),
           strip |-> Value("settings", "strip_extensions", "true"),
           data |-> Value("settings", "save_data_files", "false"),
           meta |-> Value("settings", "save_metadata", "false")]

Printed == PrintT("MANIFEST " \o ToJson(IF Errors = {} THEN [p |-> p, at |-> <<>>, config |-> Config]
                                        ELSE [p |-> p, at |-> SetToSeq(Errors), config |-> [name |-> ""]]))

-----------------------------------------------------------------------------
(* Laws *)

\* A manifest which can be read has exactly one [site], with exactly one name.
OneSite == Errors = {} => Cardinality(Heads("site")) = 1 /\ Cardinality(Entries("site", "name")) = 1

\* What is not known does not matter: leaving out a blank line, or an unknown entry, changes nothing.
ErrorLinesExist == \A i \in Errors : i \in 0..N

\* A line which is not TOML is never accepted, wherever it stands.
BadIsBad == Syntax # {} => Errors # {}
=============================================================================
