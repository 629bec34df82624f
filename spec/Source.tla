------------------------------- MODULE Source -------------------------------
(***************************************************************************)
(* Whole projects as text: the files are read by the machine of Lexer.tla  *)
(* and rendered by that of Template.tla.  A project which has a malformed  *)
(* file is not rendered at all; any of its malformed files may be reported.*)
(*                                                                         *)
(* A file is [p |-> path, k |-> kind, c |-> characters] where the kind is  *)
(* "html", "md", "other", "dir", "json" (then v is its value), or "bad" (a *)
(* file which is not valid as a whole).                                    *)
(***************************************************************************)
EXTENDS Template, Lexer

Malformed1(f) == [p |-> f.p, k |-> "bad", t |-> <<>>, fm |-> <<>>, raw |-> "", v |-> Null, bad |-> 0]

ReadHtml(f) ==
  LET r == LexOf(f.c)
  IN  [p |-> f.p, k |-> "html", t |-> r.toks, fm |-> <<>>, raw |-> "", v |-> Null, bad |-> r.bad]

ReadMarkdown(f) ==
  LET m == MarkdownOf(f.c)
      r == LexOf(m.body)
      moved(t) == [t EXCEPT !.ln = @ + m.skip]
  IN  [p |-> f.p, k |-> "md",
       t |-> [i \in 1..Len(r.toks) |-> moved(r.toks[i])],
       fm |-> [i \in 1..Len(m.fm) |-> <<m.fm[i][1], Str(m.fm[i][2])>>],
       raw |-> Join(m.body), v |-> Null,
       bad |-> IF m.bad # 0 THEN m.bad ELSE IF r.bad # 0 THEN r.bad + m.skip ELSE 0]

\* A file as Template.tla knows it; bad is the line at which it is malformed, or 0.
Read(f) == CASE f.k = "html" -> ReadHtml(f)
             [] f.k = "md" -> ReadMarkdown(f)
             [] f.k = "json" -> [p |-> f.p, k |-> "json", t |-> <<>>, fm |-> <<>>, raw |-> "", v |-> f.v, bad |-> 0]
             [] OTHER -> [p |-> f.p, k |-> f.k, t |-> <<>>, fm |-> <<>>, raw |-> "", v |-> Null, bad |-> 0]

\* The errors of reading the files: <<path, line>>, the line being 0 for a file as a whole.
ReadErrors(files) ==
  LET wrong == {i \in 1..Len(files) : files[i].k = "bad" \/ files[i].bad # 0}
  IN  {<<PathStr(files[i].p), files[i].bad>> : i \in wrong}

InitSource(p) ==
  LET bad == ReadErrors(Project(p).files) IN
  IF bad = {} THEN InitProject(p)
  ELSE /\ prj = p
       /\ st = "done" /\ errs = bad
       /\ todo = <<>> /\ job = [ph |-> "none", f |-> 0, src |-> 0]
       /\ pc = 0 /\ stk = <<>> /\ secs = <<>> /\ html = <<>> /\ outs = <<>>
       /\ probes = <<>> /\ hist = <<>>
=============================================================================
