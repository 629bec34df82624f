------------------------------- MODULE JsHost -------------------------------
(***************************************************************************)
(* Plugins written in JavaScript.  A page is a sequence of calls of their   *)
(* functions, variables and blocks.  Every plugin has a JavaScript world    *)
(* of its own, which lives as long as the build; the functions exchange     *)
(* JSON values with the template through their arguments, STUART.get and    *)
(* STUART.set, and give back a result.                                      *)
(*                                                                         *)
(* The functions are given by their bodies: sequences of statements in a    *)
(* small part of JavaScript, whose meaning is defined here.                 *)
(*                                                                         *)
(* JavaScript values are the values of Values (a number is                  *)
(* [t |-> "n", x |-> its decimal text]), undefined, and                     *)
(*   [t |-> "odd", j, s]  any other value: j is the JSON value it is         *)
(*                        converted to (undefined: none), s its string;      *)
(*                        [t |-> "x"] if the conversion throws               *)
(***************************************************************************)
EXTENDS Values, TLC, Json, IOUtils

Given == ndJsonDeserialize(IOEnv.JSHOST)

VARIABLES
  g,     \* the universe
  site,  \* the pages of the site: sequences of tokens
  todo,  \* pages which are not processed yet
  page,  \* the page being processed, 0 for none
  pc,    \* its next token
  fr,    \* its blocks: [k: kind, vars: <<name, value>>s, from: first token, left: items to come]
  js,    \* the world of each plugin
  outs,  \* the output of each page: a sequence of texts
  res    \* "", "ok", "failed"
vars == <<g, site, todo, page, pc, fr, js, outs, res>>

U == Given[g]
Plugins == {U.plugins[i].name : i \in 1..Len(U.plugins)}
FnsOf(p) == LET i == CHOOSE i \in 1..Len(U.plugins) : U.plugins[i].name = p IN U.plugins[i].fns
\* Of several functions with the same name, the first is called, whatever the plugin does to its global object.
BodyOf(p, f) == LET i == CHOOSE i \in 1..Len(FnsOf(p)) : FnsOf(p)[i].name = f /\ \A k \in 1..i - 1 : FnsOf(p)[k].name # f IN FnsOf(p)[i].body

Throws == [t |-> "x"]
NoFrame == [k |-> "", vars |-> <<>>, from |-> 0, left |-> <<>>]

(***************************************************************************)
(* Conversions.                                                             *)
(***************************************************************************)
RECURSIVE ToJson1(_)
ToJson1(v) ==
  CASE v.t = "odd" -> v.j
    [] v.t = "a" -> LET es == [i \in 1..Len(v.a) |-> ToJson1(v.a[i])] IN
                    IF \E i \in 1..Len(es) : es[i].t = "x" THEN Throws
                    ELSE Arr([i \in 1..Len(es) |-> IF es[i].t = "u" THEN Null ELSE es[i]])
    [] v.t = "o" -> LET es == [i \in 1..Len(v.o) |-> ToJson1(v.o[i][2])] IN
                    IF \E i \in 1..Len(es) : es[i].t = "x" THEN Throws
                    ELSE Obj([i \in 1..Len(es) |-> <<v.o[i][1], IF es[i].t = "u" THEN Null ELSE es[i]>>])
    [] OTHER -> v

\* Of several entries with the same key, the first counts.
RECURSIVE FromJson(_)
FromJson(v) ==
  CASE v.t = "a" -> Arr([i \in 1..Len(v.a) |-> FromJson(v.a[i])])
    [] v.t = "o" -> LET first == SelectSeq([i \in 1..Len(v.o) |-> i], LAMBDA i : \A j \in 1..i - 1 : v.o[j][1] # v.o[i][1]) IN
                    Obj([i \in 1..Len(first) |-> <<v.o[first[i]][1], FromJson(v.o[first[i]][2])>>])
    [] OTHER -> v

RECURSIVE ToText(_)
ToText(v) ==
  CASE v.t = "s" -> v
    [] v.t = "n" -> Str(v.x)
    [] v.t = "b" -> Str(IF v.b THEN "true" ELSE "false")
    [] v.t = "z" -> Str("null")
    [] v.t = "u" -> Str("undefined")
    [] v.t = "o" -> Str("[object Object]")
    [] v.t = "odd" -> v.s
    [] v.t = "a" -> LET ts == [i \in 1..Len(v.a) |-> IF v.a[i].t \in {"z", "u"} THEN Str("") ELSE ToText(v.a[i])] IN
                    IF \E i \in 1..Len(ts) : ts[i].t = "x" THEN Throws
                    ELSE Str(FoldLeft(LAMBDA acc, i : acc \o (IF i > 1 THEN "," ELSE "") \o ts[i].s, "", [i \in 1..Len(ts) |-> i]))

\* A text which shows everything of a value.
RECURSIVE Shown(_)
Shown(v) ==
  CASE v.t = "s" -> "'" \o v.s \o "'"
    [] v.t = "n" -> "#" \o v.x
    [] v.t = "b" -> IF v.b THEN "t" ELSE "f"
    [] v.t = "z" -> "z"
    [] v.t = "u" -> "u"
    [] v.t = "a" -> "[" \o FoldLeft(LAMBDA acc, e : acc \o Shown(e) \o ",", "", v.a) \o "]"
    [] v.t = "o" -> "{" \o FoldLeft(LAMBDA acc, e : acc \o e[1] \o ":" \o Shown(e[2]) \o ",", "", v.o) \o "}"

(***************************************************************************)
(* Variables of the template.                                               *)
(***************************************************************************)
RECURSIVE Holding(_, _, _)
Holding(frames, i, k) == IF i = 0 \/ HasKey(frames[i].vars, k) THEN i ELSE Holding(frames, i - 1, k)
\* A path is a sequence of components; undefined if there is no such variable.
Lookup(frames, path) ==
  LET i == Holding(frames, Len(frames), path[1].s)
  IN  IF i = 0 THEN Undef ELSE Walk(GetKey(frames[i].vars, path[1].s), Tail(path))
Bind(frames, k, v) == [frames EXCEPT ![Len(frames)].vars = SetKey(@, k, v)]

(***************************************************************************)
(* JavaScript.  While a function runs: [fr, w: the world of the plugin,      *)
(* args, ret: its result, stop: "", "ret", "throw", ruined].                 *)
(***************************************************************************)
World == [n |-> 0, globals |-> <<>>, proto |-> <<>>, kept |-> FALSE, list |-> <<>>]

\* Can STUART be reached the way the statement does it?
Reached(via, st) == IF via = "kept" THEN st.w.kept ELSE ~st.ruined

RECURSIVE Eval(_, _)
Eval(e, st) ==
  CASE e.x = "lit"   -> e.v
    [] e.x = "arg"   -> IF e.i <= Len(st.args) THEN st.args[e.i] ELSE Undef
    [] e.x = "get"   -> IF Reached(e.via, st) THEN FromJson(Lookup(st.fr, e.k)) ELSE Throws
    [] e.x = "count" -> [t |-> "n", x |-> ToString(st.w.n)]
    [] e.x = "glob"  -> IF HasKey(st.w.globals, e.k) THEN GetKey(st.w.globals, e.k)
                        ELSE IF HasKey(st.w.proto, e.k) THEN GetKey(st.w.proto, e.k) ELSE Undef
    [] e.x = "proto" -> IF HasKey(st.w.proto, e.k) THEN GetKey(st.w.proto, e.k) ELSE Undef
    [] e.x = "list"  -> Arr(st.w.list)
    [] e.x = "show"  -> LET v == Eval(e.e, st) IN IF v.t = "x" THEN v ELSE Str(Shown(v))

RECURSIVE Run(_, _)
Do(s, st) ==
  LET v == IF "e" \in DOMAIN s THEN Eval(s.e, st) ELSE Undef
      threw == [st EXCEPT !.stop = "throw"]
  IN
  IF st.stop # "" THEN st
  ELSE IF v.t = "x" THEN threw
  ELSE
  CASE s.op = "count" -> [st EXCEPT !.w.n = @ + 1]
    [] s.op = "keep"  -> IF st.ruined THEN [st EXCEPT !.w.kept = FALSE] ELSE [st EXCEPT !.w.kept = TRUE]
    [] s.op = "ruin"  -> [st EXCEPT !.ruined = TRUE]
    [] s.op = "throw" -> threw
    [] s.op = "glob"  -> [st EXCEPT !.w.globals = SetKey(@, s.k, v)]
    [] s.op = "proto" -> [st EXCEPT !.w.proto = SetKey(@, s.k, v)]
    [] s.op = "push"  -> [st EXCEPT !.w.list = Append(@, v)]
    [] s.op = "ret"   -> [st EXCEPT !.stop = "ret", !.ret = v]
    [] s.op = "mut"   -> IF Len(st.args) < s.i THEN st
                         ELSE CASE st.args[s.i].t = "o" -> [st EXCEPT !.args[s.i].o = SetKey(@, s.k, Str("changed"))]
                                [] st.args[s.i].t = "a" -> [st EXCEPT !.args[s.i].a = Append(@, Str("changed"))]
                                [] OTHER -> [st EXCEPT !.args[s.i] = Str("changed")]
    [] s.op = "set"   -> IF ~Reached(s.via, st) THEN threw
                         ELSE LET j == ToJson1(v) IN
                              IF j.t = "x" THEN threw
                              ELSE IF j.t = "u" THEN st
                              ELSE [st EXCEPT !.fr = Bind(@, s.k, j)]
    [] s.op = "try"   -> LET r == Run(s.body, st) IN IF r.stop = "throw" THEN [r EXCEPT !.stop = ""] ELSE r
Run(body, st) == FoldLeft(LAMBDA acc, s : Do(s, acc), st, body)

(***************************************************************************)
(* The pages.                                                               *)
(***************************************************************************)
Opens(tok) == tok.op \in {"loop", "block"}
Depth(seq, i) == Cardinality({k \in 1..i : Opens(seq[k])}) - Cardinality({k \in 1..i : seq[k].op = "end"})
Balanced(seq) == (\A i \in 1..Len(seq) : Depth(seq, i) >= 0) /\ Depth(seq, Len(seq)) = 0
Programs == UNION {{s \in [1..n -> RangeOf(U.pool)] : Balanced(s)} : n \in 1..U.max}

Init ==
  /\ g \in 1..Len(Given)
  /\ site \in (IF "sites" \in DOMAIN U THEN RangeOf(U.sites) ELSE {<<s>> : s \in Programs})
  /\ todo = 1..Len(site) /\ page = 0 /\ pc = 1 /\ fr = <<>>
  /\ js = [p \in Plugins |-> World]
  /\ outs = [i \in 1..Len(site) |-> <<>>]
  /\ res = ""

Begin(i) ==
  /\ res = "" /\ page = 0 /\ i \in todo
  /\ page' = i /\ pc' = 1 /\ fr' = <<[NoFrame EXCEPT !.vars = U.data]>>
  /\ UNCHANGED <<g, site, todo, js, outs, res>>

Running == res = "" /\ page # 0 /\ pc <= Len(site[page])
Tok == site[page][pc]
Says(s) == outs' = [outs EXCEPT ![page] = Append(@, s)]
Fail == res' = "failed" /\ UNCHANGED <<g, site, todo, page, pc, fr, js, outs>>

Args == [i \in 1..Len(Tok.args) |-> IF "p" \in DOMAIN Tok.args[i] THEN FromJson(Lookup(fr, Tok.args[i].p)) ELSE Tok.args[i].v]
MissingArg == \E i \in 1..Len(Tok.args) : "p" \in DOMAIN Tok.args[i] /\ Holding(fr, Len(fr), Tok.args[i].p[1].s) = 0
After == Run(BodyOf(Tok.p, Tok.f), [fr |-> fr, w |-> js[Tok.p], args |-> Args, ret |-> Undef, stop |-> "", ruined |-> FALSE])
Output(st) == IF st.ret.t = "u" THEN Str("") ELSE ToText(st.ret)

Call ==
  /\ Running /\ Tok.op = "call"
  /\ IF MissingArg THEN Fail
     ELSE LET st == After IN
          IF st.stop = "throw" \/ Output(st).t = "x" THEN Fail
          ELSE /\ fr' = st.fr
               /\ js' = [js EXCEPT ![Tok.p] = st.w]
               /\ Says(Output(st).s)
               /\ pc' = pc + 1
               /\ UNCHANGED <<g, site, todo, page, res>>

\* A function of a native plugin, which shows the variable.
Dump ==
  /\ Running /\ Tok.op = "dump"
  /\ Says(Shown(Lookup(fr, Tok.p)))
  /\ pc' = pc + 1
  /\ UNCHANGED <<g, site, todo, page, fr, js, res>>

Variable ==
  /\ Running /\ Tok.op = "var"
  /\ IF Lookup(fr, Tok.p).t # "s" THEN Fail
     ELSE /\ Says(Lookup(fr, Tok.p).s)
          /\ pc' = pc + 1
          /\ UNCHANGED <<g, site, todo, page, fr, js, res>>

Open ==
  /\ Running /\ Opens(Tok)
  /\ fr' = Append(fr, IF Tok.op = "block" THEN [NoFrame EXCEPT !.k = "block"]
                      ELSE [k |-> "loop", vars |-> <<<<"i", Tok.over[1]>>>>, from |-> pc + 1, left |-> Tail(Tok.over)])
  /\ pc' = pc + 1
  /\ UNCHANGED <<g, site, todo, page, js, outs, res>>

End ==
  /\ Running /\ Tok.op = "end"
  /\ LET f == Last(fr) IN
     IF f.left = <<>>
     THEN fr' = Front(fr) /\ pc' = pc + 1
     ELSE fr' = [fr EXCEPT ![Len(fr)] = [f EXCEPT !.vars = <<<<"i", f.left[1]>>>>, !.left = Tail(@)]] /\ pc' = f.from
  /\ UNCHANGED <<g, site, todo, page, js, outs, res>>

Finish ==
  /\ res = "" /\ page # 0 /\ pc > Len(site[page])
  /\ todo' = todo \ {page} /\ page' = 0
  /\ res' = IF todo' = {} THEN "ok" ELSE ""
  /\ UNCHANGED <<g, site, pc, fr, js, outs>>

Next == (\E i \in todo : Begin(i)) \/ Call \/ Dump \/ Variable \/ Open \/ End \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(***************************************************************************)
(* The property.                                                            *)
(***************************************************************************)
\* The world of a plugin changes only by calls of its own functions, and is never forgotten.
Isolated == [][\A p \in Plugins : js'[p] # js[p] => Running /\ Tok.op = "call" /\ Tok.p = p]_vars
Kept == [][\A p \in Plugins : js'[p].n >= js[p].n /\ Len(js'[p].list) >= Len(js[p].list)]_vars
\* A call binds variables in the innermost block only, and only JSON values.
Innermost == [][Running /\ Tok.op = "call" => Len(fr') = Len(fr) /\ Front(fr') = Front(fr)]_vars
RECURSIVE IsJson(_)
IsJson(v) == /\ v.t \in {"s", "n", "b", "z", "a", "o"}
             /\ v.t = "a" => \A i \in 1..Len(v.a) : IsJson(v.a[i])
             /\ v.t = "o" => \A i \in 1..Len(v.o) : IsJson(v.o[i][2])
OnlyJson == \A i \in 1..Len(fr) : \A j \in 1..Len(fr[i].vars) : IsJson(fr[i].vars[j][2])
\* Values survive the way to JavaScript and back (but for repeated keys).
RoundTrip == \A i \in 1..Len(fr) : \A j \in 1..Len(fr[i].vars) : LET v == FromJson(fr[i].vars[j][2]) IN ToJson1(v) = v /\ FromJson(v) = v
Ends == <>(res # "")

Printed == res # "" => PrintT("HOSTED " \o ToJson([u |-> g, site |-> site, res |-> res, outs |-> outs]))
=============================================================================
