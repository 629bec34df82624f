------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* Reading template files: a machine which is fed one character at a time  *)
(* and yields the tokens of Template.tla, or the line at which the file is *)
(* malformed.                                                              *)
(*                                                                         *)
(* Modes: "text"   outside tags                                            *)
(*        "open"   after {{, before the tag's first character              *)
(*        "var"    within the name of a variable                           *)
(*        "name"   within the name of a function                           *)
(*        "paren"  after it, before the opening parenthesis                *)
(*        "args"   within the arguments                                    *)
(*        "after"  after the closing parenthesis (or the variable's name)  *)
(*        "close"  after the first of the two closing braces               *)
(*        "bad"    malformed: nothing that follows matters                 *)
(*                                                                         *)
(* Characters are strings of one character.                                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANT Wide,    \* classes of characters which are not ASCII: <<char, "a" | "w">>s
         Plugins  \* the plugin functions: <<plugin, function, what it does>>s, in the order of loading

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Letters == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s",
            "t", "u", "v", "w", "x", "y", "z", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L",
            "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}

Alnum(c) == c \in Letters \/ c \in Digits \/ \E i \in 1..Len(Wide) : Wide[i] = <<c, "a">>
Space(c) == c \in {" ", "\t", "\n", "\r", "\f"} \/ \E i \in 1..Len(Wide) : Wide[i] = <<c, "w">>

VarChar(c) == Alnum(c) \/ c = "_" \/ c = "."
NameChar(c) == Alnum(c) \/ c = "_" \/ c = ":"
KeyChar(c) == Alnum(c) \/ c = "_"

Join(cs) == FoldLeft(LAMBDA acc, c : acc \o c, "", cs)

Holds(cs, c) == \E i \in 1..Len(cs) : cs[i] = c
AllOf(cs, Test(_)) == \A i \in 1..Len(cs) : Test(cs[i])

RECURSIVE Trimmed(_)
Trimmed(cs) == IF cs = <<>> THEN cs
               ELSE IF Space(Head(cs)) THEN Trimmed(Tail(cs))
               ELSE IF Space(cs[Len(cs)]) THEN Trimmed(SubSeq(cs, 1, Len(cs) - 1))
               ELSE cs

\* The index of the first c in cs, or 0.
IndexOf(cs, c) == LET at == {i \in 1..Len(cs) : cs[i] = c}
                  IN  IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : i <= j

RECURSIVE Split(_, _)
Split(cs, c) == LET i == IndexOf(cs, c)
                IN  IF i = 0 THEN <<cs>>
                    ELSE <<SubSeq(cs, 1, i - 1)>> \o Split(SubSeq(cs, i + 1, Len(cs)), c)

-----------------------------------------------------------------------------
(* Integers of 32 bits, as their canonical text and (if small) their value. *)

RECURSIVE NoZeros(_)
NoZeros(cs) == IF Len(cs) > 1 /\ Head(cs) = "0" THEN NoZeros(Tail(cs)) ELSE cs

Digit(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
              [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9

\* Compares two equally long sequences of digits.
RECURSIVE NotAbove(_, _)
NotAbove(a, b) == IF a = <<>> THEN TRUE
                  ELSE IF a[1] = b[1] THEN NotAbove(Tail(a), Tail(b))
                  ELSE Digit(a[1]) < Digit(b[1])

MaxInt == <<"2", "1", "4", "7", "4", "8", "3", "6", "4", "7">>
MinInt == <<"2", "1", "4", "7", "4", "8", "3", "6", "4", "8">>

Unsigned(cs) == IF cs # <<>> /\ Head(cs) \in {"+", "-"} THEN Tail(cs) ELSE cs

IsInt(cs) ==
  LET d == Unsigned(cs)
      z == NoZeros(d)
  IN  /\ d # <<>> /\ AllOf(d, LAMBDA c : c \in Digits)
      /\ \/ Len(z) < 10
         \/ Len(z) = 10 /\ NotAbove(z, IF Head(cs) = "-" THEN MinInt ELSE MaxInt)

Negative(cs) == Head(cs) = "-" /\ NoZeros(Tail(cs)) # <<"0">>
IntText(cs) == (IF Negative(cs) THEN "-" ELSE "") \o Join(NoZeros(Unsigned(cs)))
Natural(cs) == FoldLeft(LAMBDA acc, c : acc * 10 + Digit(c), 0, NoZeros(Unsigned(cs)))

-----------------------------------------------------------------------------
(* Arguments: [t |-> "var" | "str" | "id" | "int", s |-> text], with the    *)
(* characters in cs.                                                        *)

Idents == {"begin", "end", "else", "for", "import", "insert", "excerpt", "timetoread", "dateformat",
           "ifdefined", "ifeq", "ifne", "ifgt", "ifge", "iflt", "ifle"}

BadArg == [t |-> "bad", s |-> "", cs |-> <<>>]

ArgOf(cs) ==
  IF cs # <<>> /\ Head(cs) = "$"
  THEN IF AllOf(Tail(cs), VarChar) THEN [t |-> "var", s |-> Join(Tail(cs)), cs |-> Tail(cs)] ELSE BadArg
  ELSE IF Len(cs) >= 2 /\ Head(cs) = "\"" /\ cs[Len(cs)] = "\""
  THEN LET in == SubSeq(cs, 2, Len(cs) - 1)
       IN  IF Holds(in, "\"") THEN BadArg ELSE [t |-> "str", s |-> Join(in), cs |-> in]
  ELSE IF IsInt(cs) THEN [t |-> "int", s |-> IntText(cs), cs |-> cs]
  ELSE IF Join(cs) \in Idents THEN [t |-> "id", s |-> Join(cs), cs |-> cs]
  ELSE BadArg

-----------------------------------------------------------------------------
(* Functions: what a call with these arguments is, as a token of            *)
(* Template.tla, or Malformed.                                              *)

Malformed == [k |-> "malformed"]

PathComp(cs) == [s |-> Join(cs), i |-> IF cs # <<>> /\ AllOf(cs, LAMBDA c : c \in Digits) /\ Len(NoZeros(cs)) < 9
                                       THEN Natural(cs) ELSE -1]
PathOf(cs) == LET parts == Split(cs, ".")
              IN  [v |-> Join(Head(parts)), path |-> [i \in 1..Len(parts) - 1 |-> PathComp(parts[i + 1])]]

SourceOf(cs) == [abs |-> cs # <<>> /\ Head(cs) = "/",
                 comps |-> LET parts == Split(cs, "/") IN [i \in 1..Len(parts) |-> Join(parts[i])]]

EndsWith(cs, suffix) == Len(cs) >= Len(suffix) /\ SubSeq(cs, Len(cs) - Len(suffix) + 1, Len(cs)) = suffix
DotJson == <<".", "j", "s", "o", "n">>

(* An integer in the encoding of numbers of Values.tla: its double, as     *)
(* three naturals in numeric order.                                         *)
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
Pow2(e) == 2 ^ e

NumOf(cs) ==
  LET z == NoZeros(Unsigned(cs))
      big == z = MinInt                     \* whose magnitude is too large for TLC's integers
      n == IF big THEN 0 ELSE Natural(cs)
      e == IF big THEN 31 ELSE Log2(n)
      m == IF big THEN 0 ELSE n - Pow2(e)   \* without the leading bit
      top == IF e <= 10 THEN m * Pow2(10 - e) ELSE m \div Pow2(e - 10)
      mid == IF e <= 10 THEN 0 ELSE (m % Pow2(e - 10)) * Pow2(31 - e)
      hi == (e + 1023) * 1024 + top
  IN  IF z = <<"0">> THEN <<2097152, 0, 0>>
      ELSE IF Negative(cs) THEN <<2097151 - hi, 2097151 - mid, 2097151>>
      ELSE <<2097152 + hi, mid, 0>>

\* An operand of a comparison.
OperandOf(a) == IF a.t = "var" THEN [k |-> "var", p |-> PathOf(a.cs)]
                ELSE IF a.t = "str" THEN [k |-> "str", s |-> a.s]
                ELSE [k |-> "int", n |-> NumOf(a.cs)]

NoOpt == [sort |-> FALSE, path |-> <<>>, desc |-> FALSE, skip |-> 0, limit |-> -1, seen |-> {}, ok |-> TRUE]

ForOption(opt, n) ==
  LET a == n[2] IN
  IF n[1] \in {"skip", "limit"}
  THEN IF a.t = "int" /\ ~Negative(a.cs) /\ n[1] \notin opt.seen
       THEN IF n[1] = "skip" THEN [opt EXCEPT !.skip = Natural(a.cs), !.seen = @ \cup {"skip"}]
            ELSE [opt EXCEPT !.limit = Natural(a.cs), !.seen = @ \cup {"limit"}]
       ELSE [opt EXCEPT !.ok = FALSE]
  ELSE IF n[1] = "sortby"
  THEN IF a.t = "var" /\ "sortby" \notin opt.seen
       THEN [opt EXCEPT !.sort = TRUE, !.path = PathOf(a.cs).path, !.seen = @ \cup {"sortby"}]
       ELSE [opt EXCEPT !.ok = FALSE]
  ELSE IF n[1] = "order" /\ a.t = "str" /\ a.s \in {"asc", "desc"}
  THEN [opt EXCEPT !.desc = (a.s = "desc")]
  ELSE [opt EXCEPT !.ok = FALSE]

ForCall(pos, named) ==
  LET opt == FoldLeft(ForOption, NoOpt, named)
      s == pos[2]
      ok == /\ Len(pos) = 2 /\ pos[1].t = "var" /\ opt.ok
            /\ \/ s.t = "var"
               \/ s.t = "str" /\ (EndsWith(s.cs, DotJson) \/ EndsWith(s.cs, <<"/">>))
  IN  IF ~ok THEN Malformed
      ELSE [k |-> "for", v |-> pos[1].s,
            src |-> IF s.t = "var" THEN [k |-> "var", p |-> PathOf(s.cs)]
                    ELSE [k |-> IF EndsWith(s.cs, DotJson) THEN "file" ELSE "dir",
                          abs |-> SourceOf(s.cs).abs, comps |-> SourceOf(s.cs).comps],
            opt |-> [sort |-> opt.sort, path |-> opt.path, desc |-> opt.desc, skip |-> opt.skip, limit |-> opt.limit]]

\* The types of positional arguments.
Types(pos, want) == Len(pos) = Len(want) /\ \A i \in 1..Len(pos) : pos[i].t \in want[i]

Value3 == {"var", "str", "int"}

Builtin(name, pos, named) ==
  IF name = "for" THEN IF Len(pos) = 2 THEN ForCall(pos, named) ELSE Malformed
  ELSE IF named # <<>> THEN Malformed
  ELSE CASE name = "begin" -> IF Types(pos, <<{"str", "id"}>>) THEN [k |-> "begin", l |-> pos[1].s] ELSE Malformed
         [] name = "end" -> IF ~Types(pos, <<{"str", "id"}>>) THEN Malformed
                            ELSE IF pos[1].t = "str" THEN [k |-> "endl", l |-> pos[1].s] ELSE [k |-> "endf", f |-> pos[1].s]
         [] name = "else" -> IF pos = <<>> THEN [k |-> "else"] ELSE Malformed
         [] name = "insert" -> IF Types(pos, <<{"str"}>>) THEN [k |-> "insert", l |-> pos[1].s] ELSE Malformed
         [] name = "import" -> IF Types(pos, <<{"var"}, {"str"}>>)
                               THEN [k |-> "import", v |-> pos[1].s, path |-> SourceOf(pos[2].cs)] ELSE Malformed
         [] name = "excerpt" -> IF Types(pos, <<{"var"}, {"int"}>>) /\ ~Negative(pos[2].cs)
                                THEN [k |-> "excerpt", p |-> PathOf(pos[1].cs), n |-> Natural(pos[2].cs)] ELSE Malformed
         [] name = "timetoread" -> IF Types(pos, <<{"var"}>>) THEN [k |-> "ttr", p |-> PathOf(pos[1].cs)] ELSE Malformed
         [] name = "ifdefined" -> IF Types(pos, <<{"var"}>>) THEN [k |-> "ifdef", p |-> PathOf(pos[1].cs)] ELSE Malformed
         [] name = "dateformat" -> IF Types(pos, <<{"var"}, {"str"}>>)
                                   THEN [k |-> "date", p |-> PathOf(pos[1].cs), f |-> pos[2].s] ELSE Malformed
         [] OTHER -> \* comparisons
                     IF Types(pos, <<Value3, Value3>>)
                     THEN [k |-> "if", op |-> name, a |-> OperandOf(pos[1]), b |-> OperandOf(pos[2])] ELSE Malformed

\* The first plugin function of this name, or 0.
PluginFor(name) ==
  LET hits == {i \in 1..Len(Plugins) : name = Plugins[i][2] \/ name = Plugins[i][1] \o "::" \o Plugins[i][2]}
  IN  IF hits = {} THEN 0 ELSE CHOOSE i \in hits : \A j \in hits : i <= j

Known(name) == name \in Idents \/ PluginFor(name) # 0

Bare(a) == [t |-> a.t, s |-> a.s]
PluginCall(i, pos, named) ==
  CASE Plugins[i][3] = "args" -> [k |-> "args", pos |-> [j \in 1..Len(pos) |-> Bare(pos[j])],
                                  named |-> [j \in 1..Len(named) |-> <<named[j][1], Bare(named[j][2])>>]]
    [] Plugins[i][3] = "tag" -> [k |-> "raw", s |-> "<" \o Plugins[i][1] \o "." \o Plugins[i][2] \o ">"]
    [] Plugins[i][3] = "fail" -> [k |-> "fail"]
    [] Plugins[i][3] = "badparse" -> Malformed
    [] Plugins[i][3] = "probe" -> [k |-> "probe", id |-> pos[1].s, ps |-> [j \in 1..Len(pos) - 1 |-> PathOf(pos[j + 1].cs)]]
    [] Plugins[i][3] = "bind" -> [k |-> "bind", v |-> pos[1].s, s |-> pos[2].s]

Call(name, pos, named) ==
  IF name \in Idents THEN Builtin(name, pos, named) ELSE PluginCall(PluginFor(name), pos, named)

-----------------------------------------------------------------------------
(* The machine *)

Lex0 == [m |-> "text",
         buf |-> <<>>,    \* the characters of the current text, name or argument
         fresh |-> 0,     \* how many of them may be part of the {{ of a tag
         quote |-> FALSE, \* within a quoted argument?
         name |-> "", pos |-> <<>>, named |-> <<>>, tok |-> Malformed,
         toks |-> <<>>,
         line |-> 1,      \* the line of the last character
         prev |-> 1,      \* the line of the one before it
         next |-> 1,      \* the line of the next one
         tl |-> 1,        \* the line of the current tag
         bad |-> 0]       \* the line at which the file is malformed, or 0

Err(s, line) == [s EXCEPT !.m = "bad", !.bad = line]

Flush(s, text) == IF text = <<>> THEN s.toks
                  ELSE Append(s.toks, [k |-> "raw", s |-> Join(text), ln |-> s.line])

Text(s, c) ==
  LET n == Len(s.buf) IN
  IF c = "{" /\ s.fresh >= 1 /\ s.buf[n] = "{"
  THEN IF n >= 2 /\ s.buf[n - 1] = "\\"
       THEN [s EXCEPT !.buf = SubSeq(s.buf, 1, n - 2) \o <<"{", "{">>, !.fresh = 0]
       ELSE [s EXCEPT !.m = "open", !.toks = Flush(s, SubSeq(s.buf, 1, n - 1)), !.buf = <<>>]
  ELSE [s EXCEPT !.buf = Append(@, c), !.fresh = 1]

Open(s, c) ==
  IF Space(c) THEN s
  ELSE IF c = "$" THEN [s EXCEPT !.m = "var"]
  ELSE IF NameChar(c) THEN [s EXCEPT !.m = "name", !.buf = <<c>>]
  ELSE Err(s, s.tl)

\* A complete tag: only the closing braces are missing.
Tail2(s, c) == IF Space(c) THEN s
               ELSE IF c = "}" THEN [s EXCEPT !.m = "close"]
               ELSE Err(s, s.line)

Variable(s, c) ==
  IF VarChar(c) THEN [s EXCEPT !.buf = Append(@, c)]
  ELSE IF s.buf = <<>> THEN Err(s, s.prev)
  ELSE Tail2([s EXCEPT !.m = "after", !.tok = [k |-> "var", p |-> PathOf(s.buf), ln |-> s.tl]], c)

Paren(s, c) ==
  IF Space(c) THEN s
  ELSE IF c = "(" THEN [s EXCEPT !.m = "args", !.buf = <<>>, !.quote = FALSE, !.pos = <<>>, !.named = <<>>]
  ELSE Err(s, s.line)

FunctionName(s, c) ==
  IF NameChar(c) THEN [s EXCEPT !.buf = Append(@, c)]
  ELSE Paren([s EXCEPT !.m = "paren", !.name = Join(s.buf)], c)

\* The state after the argument in s.buf, which must be well formed.
Argument(s, at) ==
  LET cs == Trimmed(s.buf)
      eq == IndexOf(cs, "=")
      key == SubSeq(cs, 1, eq - 1)
      val == ArgOf(SubSeq(cs, eq + 1, Len(cs)))
  IN  IF cs = <<>> THEN [s EXCEPT !.buf = <<>>]
      ELSE IF Head(cs) # "\"" /\ eq # 0
      THEN IF key # <<>> /\ AllOf(key, KeyChar) /\ val # BadArg
           THEN [s EXCEPT !.buf = <<>>, !.named = Append(@, <<Join(key), val>>)]
           ELSE Err(s, at)
      ELSE IF s.named = <<>> /\ ArgOf(cs) # BadArg
      THEN [s EXCEPT !.buf = <<>>, !.pos = Append(@, ArgOf(cs))]
      ELSE Err(s, at)

Arguments(s, c) ==
  IF ~s.quote /\ c \in {",", ")"}
  THEN LET t == Argument(s, s.prev)
       IN  IF t.m = "bad" \/ c = "," THEN t ELSE [t EXCEPT !.m = "after", !.tok = Malformed]
  ELSE [s EXCEPT !.buf = Append(@, c), !.quote = IF c = "\"" THEN ~@ ELSE @]

\* The function of a complete call, found when the character after it is seen.
Resolve(s, at) ==
  IF s.tok # Malformed THEN s
  ELSE IF ~Known(s.name) THEN Err(s, s.tl)
  ELSE LET t == Call(s.name, s.pos, s.named)
       IN  IF t = Malformed THEN Err(s, at)
           ELSE [s EXCEPT !.tok = [x \in DOMAIN t \cup {"ln"} |-> IF x = "ln" THEN s.tl ELSE t[x]]]

After(s, c) ==
  IF Space(c) THEN s
  ELSE LET t == Resolve(s, s.prev) IN IF t.m = "bad" THEN t ELSE Tail2(t, c)

Close(s, c) ==
  IF c = "}" THEN [s EXCEPT !.m = "text", !.buf = <<>>, !.fresh = 0, !.toks = Append(@, s.tok), !.tok = Malformed]
  ELSE Err(s, s.line)

\* A tag stands on the line of the last character before its first.
Feed(old, c) ==
  IF old.m = "bad" THEN old
  ELSE LET s == [old EXCEPT !.prev = old.line, !.line = old.next,
                            !.next = IF c = "\n" THEN @ + 1 ELSE @,
                            !.tl = IF old.m = "open" THEN old.line ELSE @]
       IN  CASE s.m = "text" -> Text(s, c)
             [] s.m = "open" -> Open(s, c)
             [] s.m = "var" -> Variable(s, c)
             [] s.m = "name" -> FunctionName(s, c)
             [] s.m = "paren" -> Paren(s, c)
             [] s.m = "args" -> Arguments(s, c)
             [] s.m = "after" -> After(s, c)
             [] s.m = "close" -> Close(s, c)

\* The end of the file.
Finish(s) ==
  IF s.m = "bad" THEN s
  ELSE IF s.m = "text" THEN [s EXCEPT !.toks = Flush(s, s.buf), !.buf = <<>>]
  ELSE IF s.m = "after" THEN LET t == Resolve(s, s.line) IN IF t.m = "bad" THEN t ELSE Err(s, s.line)
  ELSE Err(s, s.line)

\* The tokens of a text, or the line at which it is malformed.
LexOf(cs) == LET s == Finish(FoldLeft(Feed, Lex0, cs)) IN [toks |-> s.toks, bad |-> s.bad]

-----------------------------------------------------------------------------
(* Markdown files: lines, frontmatter and body *)

\* The lines of a text, without their ends (LF or CRLF); a final line end begins no further line.
LinesOf(cs) ==
  LET parts == Split(cs, "\n")
      all   == IF parts[Len(parts)] = <<>> THEN SubSeq(parts, 1, Len(parts) - 1) ELSE parts
  IN  [i \in 1..Len(all) |-> IF (i < Len(parts)) /\ all[i] # <<>> /\ all[i][Len(all[i])] = "\r"
                             THEN SubSeq(all[i], 1, Len(all[i]) - 1) ELSE all[i]]

Dashes(l) == Len(l) >= 3 /\ SubSeq(l, 1, 3) = <<"-", "-", "-">>

EntryOf(l) ==
  LET c == IndexOf(l, ":")
      v == Trimmed(SubSeq(l, c + 1, Len(l)))
  IN  IF c = 0 \/ Len(v) < 2 \/ Head(v) # "\"" \/ v[Len(v)] # "\"" THEN Malformed
      ELSE [k |-> "entry", key |-> Join(Trimmed(SubSeq(l, 1, c - 1))), val |-> Join(SubSeq(v, 2, Len(v) - 1))]

Glue(lines) == FoldLeft(LAMBDA acc, i : (IF i = 1 THEN acc ELSE Append(acc, "\n")) \o lines[i], <<>>,
                        [i \in 1..Len(lines) |-> i])

StartsWithFront(cs) == \/ Len(cs) >= 4 /\ SubSeq(cs, 1, 4) = <<"-", "-", "-", "\n">>
                       \/ Len(cs) >= 5 /\ SubSeq(cs, 1, 5) = <<"-", "-", "-", "\r", "\n">>

\* [fm |-> <<key, value>>s, body |-> characters, skip |-> lines before the body, bad |-> line or 0]
MarkdownOf(cs) ==
  LET lines == LinesOf(cs)
      ends == {i \in 2..Len(lines) : Dashes(lines[i])}
      end == IF ends = {} THEN Len(lines) + 1 ELSE CHOOSE i \in ends : \A j \in ends : i <= j
      wrong == {i \in 2..(end - 1) : EntryOf(lines[i]) = Malformed}
  IN  IF ~StartsWithFront(cs) THEN [fm |-> <<>>, body |-> Glue(lines), skip |-> 0, bad |-> 0]
      ELSE IF wrong # {} THEN [fm |-> <<>>, body |-> <<>>, skip |-> 0, bad |-> CHOOSE i \in wrong : \A j \in wrong : i <= j]
      ELSE IF ends = {} THEN [fm |-> <<>>, body |-> <<>>, skip |-> 0, bad |-> Len(lines)]
      ELSE [fm |-> [i \in 1..(end - 2) |-> LET e == EntryOf(lines[i + 1]) IN <<e.key, e.val>>],
            body |-> Glue(SubSeq(lines, end + 1, Len(lines))), skip |-> end, bad |-> 0]
=============================================================================
