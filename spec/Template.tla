------------------------------ MODULE Template ------------------------------
(***************************************************************************)
(* Rendering a project: the template machine of stuart-core.               *)
(*                                                                         *)
(* A project is a set of files in a content tree.  Rendering it runs a     *)
(* sequence of jobs: first the body of every markdown file ("body"), then, *)
(* for every page, the page itself ("page"; for markdown, md.html with     *)
(* $self bound) directly followed by its root template ("root") in which   *)
(* the sections of the page are inserted.                                  *)
(*                                                                         *)
(* A job executes tokens on a stack of frames.  Each action below is one   *)
(* token executed (or skipped), or the beginning or end of a job.          *)
(*                                                                         *)
(* Tokens (ln is the line they stand on):                                  *)
(*  [k "raw", s]  [k "var", p]  [k "begin", l]  [k "endl", l]              *)
(*  [k "endf", f]  [k "else"]  [k "if", op, a, b]  [k "ifdef", p]          *)
(*  [k "for", v, src, opt]  [k "import", v, path]  [k "insert", l]         *)
(*  [k "excerpt", p, n]  [k "ttr", p]  [k "probe", id, ps]  [k "bind", v,s]*)
(*  [k "args", pos, named]  [k "fail"]                                     *)
(* p is [v |-> name, path |-> components].                                 *)
(* Files: [p |-> path, k |-> "html" | "md" | "json" | "other" | "dir",     *)
(*         t |-> tokens, fm |-> <<key, value>>s, raw |-> string, v |-> value]*)
(***************************************************************************)
EXTENDS Values, TLC

CONSTANT Project(_) \* the project denoted by prj: [files, env]

VARIABLES
  prj,    \* the project being rendered (or its number); never changes
  st,     \* "idle": between jobs; "run": within a job; "done"
  todo,   \* the jobs still to be run
  job,    \* the current job: [ph |-> "body" | "page" | "root", f |-> file, src |-> file of its tokens]
  pc,     \* the next token of the current job
  stk,    \* the stack of frames, the innermost last
  secs,   \* the sections of the current page: <<label, text>>
  html,   \* file -> content of the markdown files whose bodies are done
  outs,   \* the rendered pages: <<file, text>>
  probes, \* values seen by the probes: <<id, values>>
  errs,   \* the errors: <<file path, line>>
  hist    \* ghost: blocks executed in the current job

vars == <<prj, st, todo, job, pc, stk, secs, html, outs, probes, errs, hist>>

-----------------------------------------------------------------------------
(* The content tree *)

Files == Project(prj).files
File(i) == Files[i]
DirOf(p) == SubSeq(p, 1, Len(p) - 1)
NameOf(p) == p[Len(p)]

Nothing == 0

\* The file at exactly this path, or Nothing.
At(path) == First(Files, LAMBDA f : f.p = path)

\* Is this path a directory of the content tree (the empty path is its top)?
IsDir(path) == \/ path = <<>>
               \/ \E i \in 1..Len(Files) :
                    \/ Len(Files[i].p) > Len(path) /\ SubSeq(Files[i].p, 1, Len(path)) = path
                    \/ Files[i].k = "dir" /\ Files[i].p = path

\* The template `name` of the nearest directory at or above dir, or Nothing.  (A directory of that name is none.)
Nearest(dir, name) ==
  LET found == {n \in 0..Len(dir) : LET i == At(Append(SubSeq(dir, 1, n), name)) IN i # Nothing /\ File(i).k = "html"}
  IN  IF found = {} THEN Nothing
      ELSE At(Append(SubSeq(dir, 1, CHOOSE n \in found : \A m \in found : m <= n), name))

IsTemplate(f) == NameOf(f.p) \in {"root.html", "md.html"}
IsPage(f) == f.k \in {"html", "md"} /\ ~IsTemplate(f)

RootOf(i) == Nearest(DirOf(File(i).p), "root.html")
MdOf(i) == Nearest(DirOf(File(i).p), "md.html")

(* Source paths: [abs |-> BOOLEAN, comps |-> Seq(string)].  Empty and "."   *)
(* components are ignored; ".." and absolute paths lead nowhere.            *)
NormComps(src) == SelectSeq(src.comps, LAMBDA c : c \notin {"", "."})
Inside(src) == ~src.abs /\ \A i \in 1..Len(src.comps) : src.comps[i] # ".."

-----------------------------------------------------------------------------
(* Frames *)

Frame(kind, lab) == [kind |-> kind, lab |-> lab, vars |-> <<>>, out |-> "", cond |-> TRUE,
                     skip |-> 0, items |-> <<>>, back |-> 0, at |-> 0]

Base == [Frame("base", "") EXCEPT !.vars = << <<"env", Project(prj).env>> >>]

IfOps == {"ifeq", "ifne", "ifgt", "ifge", "iflt", "ifle"}
IfKinds == IfOps \cup {"ifdefined"}

Top == stk[Len(stk)]
Below == SubSeq(stk, 1, Len(stk) - 1)
WithTop(f) == Append(Below, f)
Emit(s) == WithTop([Top EXCEPT !.out = @ \o s])

\* The value of a variable, from the innermost frame that binds its name.
Binding(name) ==
  LET hits == {i \in 1..Len(stk) : HasKey(stk[i].vars, name)}
  IN  IF hits = {} THEN Undef
      ELSE GetKey(stk[CHOOSE i \in hits : \A j \in hits : j <= i].vars, name)

Value(p) == LET b == Binding(p.v) IN IF b = Undef THEN Undef ELSE Walk(b, p.path)

Operand(a) == CASE a.k = "var" -> Value(a.p)
                [] a.k = "str" -> Str(a.s)
                [] a.k = "int" -> [t |-> "n", n |-> a.n]

-----------------------------------------------------------------------------
(* Markdown *)

\* What $self and the items of a loop over the directory of a markdown file are.
\* (While the bodies are being executed, no content is known yet.)
MdValue(i, known) ==
  LET f == File(i)
      c == IF known THEN Str(html[i]) ELSE Null
  IN  Obj(SetKey(SetKey([j \in 1..Len(f.fm) |-> <<f.fm[j][1], f.fm[j][2]>>], "content", c),
                 "markdown", Str(f.raw)))

\* The paragraphs of a body, separated by empty lines.
RECURSIVE Paras(_, _, _)
Paras(s, from, i) ==
  IF i > Len(s) THEN <<SubSeq(s, from, Len(s))>>
  ELSE IF i < Len(s) /\ SubSeq(s, i, i + 1) = "\n\n"
       THEN <<SubSeq(s, from, i - 1)>> \o Paras(s, i + 2, i + 2)
       ELSE Paras(s, from, i + 1)

RECURSIVE Trim(_)
Trim(s) == IF s = "" THEN s
           ELSE IF SubSeq(s, 1, 1) = "\n" THEN Trim(SubSeq(s, 2, Len(s)))
           ELSE IF SubSeq(s, Len(s), Len(s)) = "\n" THEN Trim(SubSeq(s, 1, Len(s) - 1))
           ELSE s

\* Rendering markdown is not specified except for paragraphs: what else a body is rendered to is
\* given with the project, as pairs <<markdown, HTML>>.
Given1(s) == "md" \in DOMAIN Project(prj) /\ HasKey(Project(prj).md, s)
ToHtml(s) ==
  IF Given1(s) THEN GetKey(Project(prj).md, s) ELSE
  FoldLeft(LAMBDA acc, p : IF Trim(p) = "" THEN acc ELSE acc \o "<p>" \o Trim(p) \o "</p>\n", "", Paras(s, 1, 1))

-----------------------------------------------------------------------------
(* Jobs *)

Toks == File(job.src).t
Source == job.src

PathStr(p) == FoldLeft(LAMBDA acc, c : IF acc = "" THEN c ELSE acc \o "/" \o c, "", p)

Tok == Toks[pc]
Running == st = "run" /\ pc <= Len(Toks)

Indices(Test(_)) == SelectSeq([i \in 1..Len(Files) |-> i], LAMBDA i : Test(Files[i]))

InitProject(p) ==
  /\ prj = p
  /\ st = "idle"
  /\ todo = LET fs     == Project(p).files
                bodies == SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : fs[i].k = "md")
                pages  == SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : IsPage(fs[i]))
            IN  [i \in 1..Len(bodies) |-> [ph |-> "body", f |-> bodies[i]]] \o
                [i \in 1..Len(pages) |-> [ph |-> "page", f |-> pages[i]]]
  /\ job = [ph |-> "none", f |-> 0, src |-> 0]
  /\ pc = 0 /\ stk = <<>> /\ secs = <<>> /\ html = <<>> /\ outs = <<>>
  /\ probes = <<>> /\ errs = {} /\ hist = <<>>

\* A job has failed; the other jobs are still run so as to know all the errors which can be
\* reported (the order in which files are rendered is not specified).
Fail(file, line) ==
  /\ errs' = errs \cup {<<PathStr(File(file).p), line>>}
  /\ st' = "idle"
  /\ UNCHANGED <<prj, todo, job, pc, stk, secs, html, outs, probes, hist>>

FailHere == Fail(Source, Tok.ln)
FailPage == Fail(job.f, 0)

\* Pages are not begun if the body of a markdown file has failed.
BodiesFailed == job.ph = "body" /\ errs # {} /\ todo # <<>> /\ Head(todo).ph = "page"

StartJob ==
  /\ st = "idle" /\ todo # <<>> /\ ~BodiesFailed
  /\ LET i == Head(todo).f IN
     job' = [ph |-> Head(todo).ph, f |-> i,
             src |-> IF Head(todo).ph = "page" /\ File(i).k = "md" THEN MdOf(i) ELSE i]
  /\ todo' = Tail(todo)
  /\ secs' = <<>> /\ hist' = <<>> /\ pc' = 1
  /\ LET i == Head(todo).f IN
     IF Head(todo).ph = "page" /\ (RootOf(i) = Nothing \/ (File(i).k = "md" /\ MdOf(i) = Nothing))
     THEN \* there is no template for this page
          /\ errs' = errs \cup {<<PathStr(File(i).p), 0>>}
          /\ UNCHANGED <<st, stk>>
     ELSE /\ st' = "run"
          /\ stk' = <<IF Head(todo).ph = "page" /\ File(i).k = "md"
                      THEN [Base EXCEPT !.vars = Append(@, <<"self", MdValue(i, TRUE)>>)]
                      ELSE Base>>
          /\ UNCHANGED errs
  /\ UNCHANGED <<prj, html, outs, probes>>

\* All tokens are executed and every block is closed.
JobComplete == st = "run" /\ pc > Len(Toks) /\ Len(stk) = 1

BodyDone ==
  /\ JobComplete /\ job.ph = "body"
  /\ html' = [i \in (DOMAIN html) \cup {job.f} |-> IF i = job.f THEN ToHtml(Top.out) ELSE html[i]]
  /\ st' = "idle"
  /\ UNCHANGED <<prj, todo, job, pc, stk, secs, outs, probes, errs, hist>>

\* The text of the page outside its sections is dropped; the root template has a scope of its own.
PageDone ==
  /\ JobComplete /\ job.ph = "page"
  /\ job' = [job EXCEPT !.ph = "root", !.src = RootOf(job.f)]
  /\ pc' = 1 /\ stk' = <<Base>> /\ hist' = <<>>
  /\ UNCHANGED <<prj, st, todo, secs, html, outs, probes, errs>>

RootDone ==
  /\ JobComplete /\ job.ph = "root"
  /\ outs' = Append(outs, <<job.f, Top.out>>)
  /\ st' = "idle"
  /\ UNCHANGED <<prj, todo, job, pc, stk, secs, html, probes, errs, hist>>

\* The file ends within a block: the innermost loop or conditional reports it, or else the page.
Unclosed ==
  /\ st = "run" /\ pc > Len(Toks) /\ Len(stk) # 1
  /\ LET open == {i \in 1..Len(stk) : stk[i].kind \notin {"base", "begin"}}
     IN  IF open = {} THEN FailPage
         ELSE Fail(Source, Toks[stk[CHOOSE i \in open : \A j \in open : j <= i].at].ln)

AllDone ==
  /\ st = "idle" /\ (todo = <<>> \/ BodiesFailed)
  /\ st' = "done"
  /\ UNCHANGED <<prj, todo, job, pc, stk, secs, html, outs, probes, errs, hist>>

-----------------------------------------------------------------------------
(* Skipping the branch of a conditional which is not taken, or the body of a loop over nothing *)

Skipping == Running /\ ~Top.cond
Live == Running /\ Top.cond

Opener(t) == t.k \in {"begin", "for", "if", "ifdef"}
Closer(t) == t.k \in {"endl", "endf"}

SkipOpen ==
  /\ Skipping /\ Opener(Tok)
  /\ stk' = WithTop([Top EXCEPT !.skip = @ + 1])
  /\ pc' = pc + 1
  /\ UNCHANGED <<prj, st, todo, job, secs, html, outs, probes, errs, hist>>

SkipClose ==
  /\ Skipping /\ Closer(Tok) /\ Top.skip > 0
  /\ stk' = WithTop([Top EXCEPT !.skip = @ - 1])
  /\ pc' = pc + 1
  /\ UNCHANGED <<prj, st, todo, job, secs, html, outs, probes, errs, hist>>

SkipToken ==
  /\ Skipping /\ ~Opener(Tok) /\ ~Closer(Tok)
  /\ ~(Tok.k = "else" /\ Top.skip = 0 /\ Top.kind \in IfKinds)
  /\ pc' = pc + 1
  /\ UNCHANGED <<prj, st, todo, job, stk, secs, html, outs, probes, errs, hist>>

\* Is the current token executed, rather than skipped?
Acting == \/ Live
          \/ Skipping /\ Closer(Tok) /\ Top.skip = 0
          \/ Skipping /\ Tok.k = "else" /\ Top.skip = 0 /\ Top.kind \in IfKinds

-----------------------------------------------------------------------------
(* Blocks *)

Opened(kind) == hist' = Append(hist, <<"open", kind>>)
Closed(kind) == hist' = Append(hist, <<"close", kind>>)

Begin ==
  /\ Live /\ Tok.k = "begin"
  /\ stk' = Append(stk, Frame("begin", Tok.l))
  /\ pc' = pc + 1
  /\ Opened("begin:" \o Tok.l)
  /\ UNCHANGED <<prj, st, todo, job, secs, html, outs, probes, errs>>

\* The frames after the innermost block is closed, its text going to the enclosing one.
Popped == [Below EXCEPT ![Len(Below)].out = @ \o Top.out]

EndSection ==
  /\ Acting /\ Tok.k = "endl"
  /\ IF Top.kind = "begin" /\ Top.lab = Tok.l
     THEN /\ stk' = Popped
          /\ secs' = Append(secs, <<Tok.l, Top.out>>)
          /\ pc' = pc + 1
          /\ Closed("begin:" \o Tok.l)
          /\ UNCHANGED <<prj, st, todo, job, html, outs, probes, errs>>
     ELSE FailHere

\* The end of a block, except that of a loop which has further items.
EndBlock ==
  /\ Acting /\ Tok.k = "endf" /\ ~(Top.kind = "for" /\ Top.items # <<>>)
  /\ IF Top.kind = Tok.f /\ Top.kind # "base"
     THEN /\ stk' = Popped
          /\ pc' = pc + 1
          /\ Closed(IF Top.kind = "begin" THEN "begin:" \o Top.lab ELSE Top.kind)
          /\ UNCHANGED <<prj, st, todo, job, secs, html, outs, probes, errs>>
     ELSE FailHere

LoopFrame(v, items, back, at) ==
  [Frame("for", v) EXCEPT !.vars = << <<v, Head(items)>> >>, !.items = Tail(items), !.back = back, !.at = at]

\* The end of a loop which has further items: its body starts again with the next one.
NextItem ==
  /\ Acting /\ Tok.k = "endf" /\ Top.kind = "for" /\ Top.items # <<>>
  /\ IF Tok.f = "for"
     THEN /\ stk' = Append(Popped, LoopFrame(Top.lab, Top.items, Top.back, Top.at))
          /\ pc' = Top.back
          /\ hist' = hist \o << <<"close", "for">>, <<"open", "for">> >>
          /\ UNCHANGED <<prj, st, todo, job, secs, html, outs, probes, errs>>
     ELSE FailHere

Else ==
  /\ Acting /\ Tok.k = "else"
  /\ IF Top.kind \in IfKinds
     THEN /\ stk' = WithTop([Top EXCEPT !.cond = ~@])
          /\ pc' = pc + 1
          /\ UNCHANGED <<prj, st, todo, job, secs, html, outs, probes, errs, hist>>
     ELSE FailHere

If ==
  /\ Live /\ Tok.k = "if"
  /\ LET a == Operand(Tok.a)
         b == Operand(Tok.b)
     IN  IF Comparable(a) /\ Comparable(b)
         THEN /\ stk' = Append(stk, [Frame(Tok.op, "") EXCEPT !.cond = Compare(Tok.op, a, b), !.at = pc])
              /\ pc' = pc + 1
              /\ Opened(Tok.op)
              /\ UNCHANGED <<prj, st, todo, job, secs, html, outs, probes, errs>>
         ELSE FailHere

IfDefined ==
  /\ Live /\ Tok.k = "ifdef"
  /\ stk' = Append(stk, [Frame("ifdefined", "") EXCEPT !.cond = Value(Tok.p).t \notin {"u", "z"}, !.at = pc])
  /\ pc' = pc + 1
  /\ Opened("ifdefined")
  /\ UNCHANGED <<prj, st, todo, job, secs, html, outs, probes, errs>>

(* The items a loop ranges over before selection, or Undef. *)
Markdown(dir) == Indices(LAMBDA f : f.k = "md" /\ DirOf(f.p) = dir)

Items(src) ==
  CASE src.k = "dir" ->
         IF Inside(src) /\ IsDir(NormComps(src)) /\ (NormComps(src) = <<>> \/ At(NormComps(src)) = Nothing
                            \/ File(At(NormComps(src))).k = "dir")
         THEN Arr([i \in 1..Len(Markdown(NormComps(src))) |-> MdValue(Markdown(NormComps(src))[i], job.ph # "body")])
         ELSE Undef
    [] src.k = "file" ->
         IF Inside(src) /\ At(NormComps(src)) # Nothing /\ File(At(NormComps(src))).k = "json"
         THEN File(At(NormComps(src))).v
         ELSE Undef
    [] src.k = "var" -> Value(src.p)

For ==
  /\ Live /\ Tok.k = "for"
  /\ LET all == Items(Tok.src) IN
     IF all.t = "a"
     THEN LET sel == Selected(all.a, Tok.opt) IN
          /\ stk' = Append(stk, IF sel = <<>>
                                THEN [Frame("for", Tok.v) EXCEPT !.cond = FALSE, !.at = pc]
                                ELSE LoopFrame(Tok.v, sel, pc + 1, pc))
          /\ pc' = pc + 1
          /\ Opened("for")
          /\ UNCHANGED <<prj, st, todo, job, secs, html, outs, probes, errs>>
     ELSE FailHere

-----------------------------------------------------------------------------
(* Other tokens *)

Advance == pc' = pc + 1 /\ UNCHANGED <<prj, st, todo, job, secs, html, outs, errs, hist>>

Raw ==
  /\ Live /\ Tok.k = "raw"
  /\ stk' = Emit(Tok.s) /\ Advance /\ UNCHANGED probes

Var ==
  /\ Live /\ Tok.k = "var"
  /\ IF Value(Tok.p).t = "s" THEN stk' = Emit(Value(Tok.p).s) /\ Advance /\ UNCHANGED probes
     ELSE FailHere

Import ==
  /\ Live /\ Tok.k = "import"
  /\ LET f == At(NormComps(Tok.path)) IN
     IF Inside(Tok.path) /\ f # Nothing /\ File(f).k = "json" /\ ~HasKey(Top.vars, Tok.v)
     THEN stk' = WithTop([Top EXCEPT !.vars = Append(@, <<Tok.v, File(f).v>>)]) /\ Advance /\ UNCHANGED probes
     ELSE FailHere

Insert ==
  /\ Live /\ Tok.k = "insert"
  /\ IF HasKey(secs, Tok.l) THEN stk' = Emit(GetKey(secs, Tok.l)) /\ Advance /\ UNCHANGED probes
     ELSE FailHere

ExcerptOf ==
  /\ Live /\ Tok.k = "excerpt"
  /\ IF Value(Tok.p).t = "s" THEN stk' = Emit(Excerpt(Value(Tok.p), Tok.n)) /\ Advance /\ UNCHANGED probes
     ELSE FailHere

TimeToRead ==
  /\ Live /\ Tok.k = "ttr"
  /\ IF Value(Tok.p).t = "s" THEN stk' = Emit(ToString(Minutes(Value(Tok.p)))) /\ Advance /\ UNCHANGED probes
     ELSE FailHere

(* Plugin functions of the conformance driver. *)
Probe ==
  /\ Live /\ Tok.k = "probe"
  /\ probes' = Append(probes, <<Tok.id, [i \in 1..Len(Tok.ps) |-> Value(Tok.ps[i])]>>)
  /\ UNCHANGED stk /\ Advance

\* The arguments of a call as they are written.
Args ==
  /\ Live /\ Tok.k = "args"
  /\ probes' = Append(probes, <<PathStr(File(Source).p), <<Tok.pos, Tok.named>>>>)
  /\ UNCHANGED stk /\ Advance

Bind ==
  /\ Live /\ Tok.k = "bind"
  /\ stk' = WithTop([Top EXCEPT !.vars = Append(@, <<Tok.v, Str(Tok.s)>>)]) /\ Advance /\ UNCHANGED probes

Failing == Live /\ Tok.k = "fail" /\ FailHere

-----------------------------------------------------------------------------
\* Exactly one action is possible in each state; the nesting below only spares TLC trying all of them.
BlockToken == Tok.k \in {"begin", "endl", "endf", "else", "if", "ifdef", "for"}

LiveStep ==
  IF Tok.k = "raw" THEN Raw
  ELSE IF Tok.k = "var" THEN Var
  ELSE IF BlockToken THEN Begin \/ EndSection \/ EndBlock \/ NextItem \/ Else \/ If \/ IfDefined \/ For
  ELSE Import \/ Insert \/ ExcerptOf \/ TimeToRead \/ Probe \/ Args \/ Bind \/ Failing

SkipStep == SkipToken \/ SkipOpen \/ SkipClose \/ EndSection \/ EndBlock \/ Else

Step ==
  IF st = "idle" THEN StartJob \/ AllDone
  ELSE IF st = "run" THEN IF pc > Len(Toks) THEN BodyDone \/ PageDone \/ RootDone \/ Unclosed
                          ELSE IF Top.cond THEN LiveStep ELSE SkipStep
  ELSE FALSE

\* The build succeeds if and only if no job fails.
Finished == st = "done"
Succeeded == Finished /\ errs = {}

\* The text of a rendered page.
OutOf(i) == GetKey(outs, i)
=============================================================================
