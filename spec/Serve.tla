-------------------------------- MODULE Serve --------------------------------
(***************************************************************************)
(* What the development server answers: for every request target made of   *)
(* some pieces, over a given output directory, and what it makes of every  *)
(* file's text.  Both are printed, to be replayed against the real server. *)
(*                                                                         *)
(* A case is [files |-> <<path>>s (sequences of names), pieces |-> strings,*)
(* max, texts |-> strings, tmax].                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Given == ndJsonDeserialize(IOEnv.SERVE)

VARIABLES
  i,      \* which case
  k,      \* "target" or "text"
  n,      \* the number of pieces
  s       \* what is made of them so far: a target without its first /, or the text of a file

vars == <<i, k, n, s>>
G == Given[i]
Range_(q) == {q[j] : j \in 1..Len(q)}
Ch(t, j) == SubSeq(t, j, j)
Upto(t, j) == SubSeq(t, 1, j)
From(t, j) == IF j > Len(t) THEN "" ELSE SubSeq(t, j, Len(t))

-----------------------------------------------------------------------------
(* Percent encoding.  Of the bytes above 127, only the two of an e with an acute accent are        *)
(* understood; the drivers use no other.                                                           *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Hex == "0123456789abcdef"
HEX == "0123456789ABCDEF"
\* where c is in t, or 0
IndexIn(t, c) == LET at == {j \in 1..Len(t) : Ch(t, j) = c} IN IF at = {} THEN 0 ELSE CHOOSE j \in at : TRUE
HexValue(c) == IF IndexIn(Hex, c) > 0 THEN IndexIn(Hex, c) - 1 ELSE IF IndexIn(HEX, c) > 0 THEN IndexIn(HEX, c) - 1 ELSE 16

Bad == "\n" \* stands for a target which cannot be decoded
Control == "\t" \* for a control character; no file has one in its name

ByteAt(t, j) == IF j + 2 > Len(t) \/ Ch(t, j) # "%" THEN 256
                ELSE LET a == HexValue(Ch(t, j + 1)) b == HexValue(Ch(t, j + 2)) IN IF a = 16 \/ b = 16 THEN 256 ELSE 16 * a + b

RECURSIVE Decode(_, _)
Decode(t, j) ==
  IF j > Len(t) THEN ""
  ELSE IF Ch(t, j) # "%" THEN LET r == Decode(t, j + 1) IN IF r = Bad THEN Bad ELSE Ch(t, j) \o r
  ELSE LET b == ByteAt(t, j)
           two == b = 195 /\ ByteAt(t, j + 3) = 169
           c == IF two THEN "é" ELSE IF b < 32 \/ b = 127 THEN Control ELSE IF b < 127 THEN Ch(Ascii, b - 31) ELSE Bad
           r == IF c = Bad THEN Bad ELSE Decode(t, j + (IF two THEN 6 ELSE 3))
       IN  IF r = Bad THEN Bad ELSE c \o r

-----------------------------------------------------------------------------
(* Files *)

RECURSIVE Split(_)
Split(t) ==
  LET at == {j \in 1..Len(t) : Ch(t, j) = "/"} IN
  IF at = {} THEN <<t>>
  ELSE LET j == CHOOSE x \in at : \A y \in at : x <= y IN <<Upto(t, j - 1)>> \o Split(From(t, j + 1))

IsPrefix_(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
IsFile(p) == p \in Range_(G.files)
IsDir(p) == \E f \in Range_(G.files) : Len(p) < Len(f) /\ IsPrefix_(p, f)

\* Where a path leads: to a file or directory in the output, nowhere, or out of it.
Nowhere == <<"", "nowhere">>
Outside == <<"", "outside">>
RECURSIVE Lead(_, _)
Lead(at, names) ==
  IF names = <<>> THEN at
  ELSE IF at \in {Nowhere, Outside} THEN at
  ELSE IF ~IsDir(at) THEN Nowhere
  ELSE Lead(CASE Head(names) \in {"", "."} -> at
              [] Head(names) = ".." -> IF at = <<>> THEN Outside ELSE SubSeq(at, 1, Len(at) - 1)
              [] OTHER -> IF IsFile(Append(at, Head(names))) \/ IsDir(Append(at, Head(names)))
                          THEN Append(at, Head(names)) ELSE Nowhere,
            Tail(names))

Found(p) == [s |-> 200, p |-> p, l |-> ""]
Missing == [s |-> 404, p |-> <<>>, l |-> ""]
Moved(t) == [s |-> 301, p |-> <<>>, l |-> t]

RECURSIVE Trim(_)
Trim(t) == IF t # "" /\ Ch(t, 1) = "/" THEN Trim(From(t, 2)) ELSE t

\* A target up to its query
RECURSIVE Path(_)
Path(t) == IF t = "" \/ Ch(t, 1) = "?" THEN "" ELSE Ch(t, 1) \o Path(From(t, 2))

Answer(target) ==
  LET path == Path(target)
      d == Decode(path, 1)
      names == Split(Trim(d))
      slash == Trim(d) = "" \/ names[Len(names)] = ""
      at == Lead(<<>>, names)
  IN  IF d = Bad THEN Missing
      ELSE IF slash THEN IF at \notin {Nowhere, Outside} /\ IsFile(Append(at, "index.html")) THEN Found(Append(at, "index.html")) ELSE Missing
      ELSE IF at \in {Nowhere, Outside} THEN Missing
      ELSE IF IsFile(at) THEN Found(at) ELSE Moved("/" \o path \o "/")

\* Targets with these may be refused instead.
MayRefuse(target) ==
  LET d == Decode(Path(target), 1) IN
  \E j \in 1..Len(d) : Ch(d, j) = ":" \/ (j > 1 /\ Ch(d, j) = "." /\ Ch(d, j - 1) = ".")

Types == [html |-> "text/html", htm |-> "text/html", css |-> "text/css", js |-> "text/javascript", mjs |-> "text/javascript",
          txt |-> "text/plain", bmp |-> "image/bmp", gif |-> "image/gif", jpeg |-> "image/jpeg", jpg |-> "image/jpeg",
          png |-> "image/png", webp |-> "image/webp", svg |-> "image/svg+xml", ico |-> "image/vnd.microsoft.icon",
          json |-> "application/json", pdf |-> "application/pdf", zip |-> "application/zip", mp4 |-> "video/mp4",
          ogv |-> "video/ogg", webm |-> "video/webm", ttf |-> "font/ttf", otf |-> "font/otf", woff |-> "font/woff", woff2 |-> "font/woff2"]
LastDot(t) == LET at == {j \in 2..Len(t) : Ch(t, j) = "."} IN IF at = {} THEN 0 ELSE CHOOSE j \in at : \A x \in at : x <= j
TypeOf(p) ==
  LET name == p[Len(p)]
      dot == LastDot(name)
      ext == From(name, dot + 1)
  IN  IF dot = 0 THEN "" ELSE IF ext \in DOMAIN Types THEN Types[ext] ELSE "application/octet-stream"

-----------------------------------------------------------------------------
(* The script is inserted before the first </body>. *)
Body == "</body>"
Bodies(t) == {j \in 1..(Len(t) - 6) : SubSeq(t, j, j + 6) = Body}
Inject(t) ==
  IF Bodies(t) = {} THEN <<t>>
  ELSE LET j == CHOOSE x \in Bodies(t) : \A y \in Bodies(t) : x <= y IN <<Upto(t, j - 1), From(t, j)>>

-----------------------------------------------------------------------------
Init == i \in 1..Len(Given) /\ n = 0 /\ s = "" /\ k \in {"target", "text"}
More(ps) == \E j \in 1..Len(ps) : s' = s \o ps[j]
Next == /\ \/ k = "target" /\ n < G.max /\ More(G.pieces)
           \/ k = "text" /\ n < G.tmax /\ More(G.texts)
        /\ n' = n + 1 /\ UNCHANGED <<i, k>>
Spec == Init /\ [][Next]_vars

\* No answer is a file outside; every file is there for some target.
Inside == k = "target" => LET a == Answer(s) IN a.s = 200 => IsFile(a.p)
\* A redirection leads to an index, or to none, but not on; and it leads to the same directory.
Once == k = "target" => LET a == Answer(s) IN
          a.s = 301 => Answer(From(a.l, 2)).s \in {200, 404}
\* What is inserted into a text is inserted once, and the rest is kept.
Kept == k = "text" => LET r == Inject(s) IN
          /\ Len(r) = 1 => r[1] = s
          /\ Len(r) = 2 => r[1] \o r[2] = s /\ Bodies(r[1]) = {} /\ IsPrefix(Body, r[2])

RECURSIVE Encode(_)
Encode(t) == IF t = "" THEN "" ELSE (IF Ch(t, 1) \in {"%", "?", " "} THEN (CASE Ch(t, 1) = "%" -> "%25" [] Ch(t, 1) = "?" -> "%3F" [] OTHER -> "%20") ELSE Ch(t, 1)) \o Encode(From(t, 2))
Target(p) == Encode(FoldLeft(LAMBDA acc, x : IF acc = "" THEN x ELSE acc \o "/" \o x, "", p))
AllServed == n = 0 => \A f \in Range_(G.files) : Answer(Target(f)) = Found(f)

Printed ==
  /\ k = "target" => PrintT("TARGET " \o ToJson([i |-> i, t |-> s, a |-> Answer(s), r |-> MayRefuse(s)]))
  /\ k = "text" /\ G.tmax > 0 => PrintT("TEXT " \o ToJson([i |-> i, s |-> s, r |-> Inject(s)]))
  /\ (k = "target" /\ n = 0) => \A f \in Range_(G.files) : PrintT("FILE " \o ToJson([i |-> i, p |-> f, t |-> Target(f), type |-> TypeOf(f)]))
=============================================================================
