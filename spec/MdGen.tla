-------------------------------- MODULE MdGen --------------------------------
(***************************************************************************)
(* All markdown files made of up to a number of pieces (lines, mostly), as *)
(* Lexer.tla reads them: their frontmatter and body, and what the body is  *)
(* once the tags in it are executed; or the line at which they are         *)
(* malformed.  The result is printed, to be replayed in the real code.     *)
(***************************************************************************)
EXTENDS Values, Lexer, Json, IOUtils

Par == ndJsonDeserialize(IOEnv.GEN)[1]
WideChars == Par.wide
PluginTable == Par.plugins
Pieces == Par.pieces

VARIABLE p

Init == p = <<>>
Next == Len(p) < Par.max /\ \E k \in 1..Len(Pieces) : p' = Append(p, k)
Spec == Init /\ [][Next]_p

Src == Par.before \o FoldLeft(LAMBDA acc, k : acc \o Pieces[k], <<>>, p) \o Par.after
M == MarkdownOf(Src)
L == LexOf(M.body)

\* The only tag in the pieces is {{ $env.STUART_ENV }}.
Run(toks) == FoldLeft(LAMBDA acc, t : acc \o (IF t.k = "raw" THEN t.s ELSE Par.value), "", toks)

\* What $self is, except for the rendering of its content.
Self(content) == SetKey(SetKey([i \in 1..Len(M.fm) |-> <<M.fm[i][1], M.fm[i][2]>>], "content", content), "markdown", Join(M.body))

Bad == IF M.bad # 0 THEN M.bad ELSE IF L.bad # 0 THEN L.bad + M.skip ELSE 0

Printed == PrintT("MD " \o ToJson(IF Bad # 0 THEN [p |-> p, bad |-> Bad]
                                  ELSE [p |-> p, bad |-> 0, self |-> Self(Run(L.toks))]))

-----------------------------------------------------------------------------
(* Laws *)

\* The frontmatter, the body and what separates them are the lines of the file.
AllLines == M.bad = 0 => LET n == Len(LinesOf(Src)) IN
  IF M.skip = 0 THEN M.fm = <<>> /\ Glue(LinesOf(Src)) = M.body
  ELSE Len(M.fm) = M.skip - 2 /\ LinesOf(M.body) = LinesOf(Glue(SubSeq(LinesOf(Src), M.skip + 1, n)))

\* An error is at a line of the file.
LineExists == Bad <= Len(LinesOf(Src)) \/ Src = <<>>

\* Keys do not contain colons, nor are they surrounded by space.
KeysTrimmed == \A i \in 1..Len(M.fm) : LET k == EntryOf(LinesOf(Src)[i + 1]).key IN k = M.fm[i][1]
=============================================================================
