------------------------------ MODULE Resolve ------------------------------
(***************************************************************************)
(* Which function a template tag calls.  Plugins are loaded one after the  *)
(* other, each with a name and a list of functions; then a name is called: *)
(* the built-ins are looked at first, then the functions of the plugins in *)
(* the order of loading.                                                    *)
(*                                                                         *)
(* TLC explores all plugins and names within the bounds given and prints   *)
(* what every call resolves to, to be replayed with the real code.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Given == ndJsonDeserialize(IOEnv.RESOLVE)[1]
Range(s) == {s[i] : i \in 1..Len(s)}
BuiltIns == Range(Given.builtins)  \* the names of the built-in functions
Called == Range(Given.called)      \* the names which are called
Pool == Range(Given.pool)          \* the names of plugin functions
Names == Range(Given.plugins)      \* the names of plugins
Lists == UNION {[1..n -> Pool] : n \in 0..Given.maxf}

VARIABLES
  loaded,  \* the plugins: [n: name, fs: names of its functions]
  called,  \* the name called, "" before the call
  at,      \* the plugin and the function looked at
  found    \* "": undecided, "none", "builtin", "plugin": the one looked at
vars == <<loaded, called, at, found>>

Init == loaded = <<>> /\ called = "" /\ at = <<1, 1>> /\ found = ""

Load(n, fs) ==
  /\ called = "" /\ Len(loaded) < Given.maxp
  /\ Given.most >= Len(fs) + (IF loaded = <<>> THEN 0 ELSE Len(loaded[Len(loaded)].fs))
  /\ loaded' = Append(loaded, [n |-> n, fs |-> fs])
  /\ UNCHANGED <<called, at, found>>

Call(name) ==
  /\ called = ""
  /\ called' = name
  /\ found' = IF name \in BuiltIns THEN "builtin" ELSE ""
  /\ UNCHANGED <<loaded, at>>

Matches(i, j) == called = loaded[i].fs[j] \/ called = loaded[i].n \o "::" \o loaded[i].fs[j]

Look ==
  /\ called # "" /\ found = ""
  /\ LET i == at[1] j == at[2] IN
     IF i > Len(loaded) THEN found' = "none" /\ UNCHANGED at
     ELSE IF j > Len(loaded[i].fs) THEN at' = <<i + 1, 1>> /\ UNCHANGED found
     ELSE IF Matches(i, j) THEN found' = "plugin" /\ UNCHANGED at
     ELSE at' = <<i, j + 1>> /\ UNCHANGED found
  /\ UNCHANGED <<loaded, called>>

Next == (\E n \in Names, fs \in Lists : Load(n, fs)) \/ (\E n \in Called : Call(n)) \/ Look
Spec == Init /\ [][Next]_vars /\ WF_vars(Look)

(***************************************************************************)
(* The property, without the scan.                                          *)
(***************************************************************************)
Providers == {<<i, j>> \in (1..Len(loaded)) \X (1..Given.maxf) : j <= Len(loaded[i].fs) /\ Matches(i, j)}
Before(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])

BuiltInsFirst == (called \in BuiltIns) <=> (found = "builtin")
FirstWins == found = "plugin" => at \in Providers /\ \A x \in Providers : x = at \/ Before(at, x)
NoneLeftOut == found = "none" => Providers = {}
\* A full name finds a function of the plugin it names whenever that plugin has one and no function is called exactly so.
FullNames ==
  found = "plugin" => \A i \in 1..Len(loaded), f \in Pool :
    (f \in Range(loaded[i].fs) /\ called = loaded[i].n \o "::" \o f /\ \A k \in 1..Len(loaded) : called \notin Range(loaded[k].fs))
      => \E g \in Pool : called = loaded[at[1]].n \o "::" \o g
\* What is called does not depend on plugins loaded later.
Decided == called # "" ~> found # ""

Printed == found # "" => PrintT("CALL " \o ToJson(<<loaded, called, IF found = "plugin" THEN at ELSE <<>>, found>>))
=============================================================================
