-------------------------------- MODULE Stl --------------------------------
(* C21. What a STL file is, byte by byte, in its two encodings, and what importing it does to a model.    *)
(* A file is a sequence of bytes. The numbers in it are named by their words (text) or by their four      *)
(* bytes (binary); a table says which number each is, and which are the same or near.                     *)
EXTENDS Builder, Integers, SequencesExt, FiniteSets

Ascii == " !\"#$" \o "%" \o "&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Char == TLCEval([b \in 0..255 |-> IF b \in 32..126 THEN SubSeq(Ascii, b - 31, b - 31) ELSE "?"])
LowerChar == TLCEval([b \in 0..255 |-> IF b \in 65..90 THEN Char[b + 32] ELSE Char[b]])

(* ------------------------------------------------------------------ which encoding *)
HeadSize == 300
Lower(b) == IF b \in 65..90 THEN b + 32 ELSE b
Solid == <<115, 111, 108, 105, 100>>
(* A text begins with the word solid; a binary file may do so as well, but it has a zero byte soon.       *)
IsText(f) == /\ Len(f) >= 5 /\ \A i \in 1..5 : Lower(f[i]) = Solid[i]
             /\ \A i \in 1..(IF Len(f) < HeadSize THEN Len(f) ELSE HeadSize) : f[i] # 0

(* ------------------------------------------------------------------ text *)
(* The state of a reader between two lines. at: what the last line was; corners: those of the facets so   *)
(* far, three each, and of the current one; odd: lines are missing or out of place; bad: it cannot be     *)
(* read.                                                                                                  *)
Start == [at |-> "out", open |-> FALSE, pos |-> 0, corners |-> <<>>, odd |-> FALSE, bad |-> FALSE]
Before == [solid |-> {"out"}, facet |-> {"solid", "endfacet"}, outer |-> {"facet"}, v1 |-> {"outer"}, v2 |-> {"v1"},
           v3 |-> {"v2"}, endloop |-> {"v3"}, endfacet |-> {"endloop"}, endsolid |-> {"solid", "endfacet"}]
Vertex(st) == <<"v1", "v2", "v3">>[st.pos + 1]

(* ws: the words of a line, and low the first one in lower case *)
Line(st, ws, low, words) ==
  IF ws = <<>> \/ st.bad THEN st
  ELSE LET kind == IF low = "vertex" THEN Vertex(st) ELSE low
           known == kind \in DOMAIN Before
           ok == known /\ st.at \in Before[kind]
           s0 == [st EXCEPT !.odd = @ \/ ~ok, !.at = IF kind = "endsolid" THEN "out" ELSE IF known THEN kind ELSE @] IN
       CASE low = "solid" -> [s0 EXCEPT !.open = TRUE]
         [] low = "endsolid" -> [s0 EXCEPT !.open = FALSE]
         [] low = "endfacet" -> [s0 EXCEPT !.bad = st.pos # 0]
         [] low = "vertex" ->
              IF Len(ws) # 4 \/ \E i \in 2..Len(ws) : ws[i] \notin DOMAIN words THEN [s0 EXCEPT !.bad = TRUE]
              ELSE [s0 EXCEPT !.pos = (@ + 1) % 3, !.corners = Append(@, <<words[ws[2]], words[ws[3]], words[ws[4]]>>)]
         [] OTHER -> s0

Space(b) == b \in {32, 9, 11, 12, 13}
(* w: the word being read, low: the first word of the line in lower case *)
Byte(r, b, words) ==
  LET done == IF r.w = "" THEN r.ws ELSE Append(r.ws, r.w) IN
  CASE b = 10 -> [st |-> Line(r.st, done, r.low, words), ws |-> <<>>, w |-> "", low |-> ""]
    [] Space(b) -> [r EXCEPT !.ws = done, !.w = ""]
    [] OTHER -> [r EXCEPT !.w = @ \o Char[b], !.low = IF r.ws = <<>> THEN @ \o LowerChar[b] ELSE @]
ReadText(f, words) ==
  LET r == FoldLeft(LAMBDA a, b : Byte(a, b, words), [st |-> Start, ws |-> <<>>, w |-> "", low |-> ""], Append(f, 10)).st IN
  [text |-> TRUE, corners |-> r.corners,
   verdict |-> IF r.bad \/ r.open \/ r.pos # 0 THEN "bad" ELSE IF r.odd THEN "odd" ELSE "good"]

(* ------------------------------------------------------------------ binary *)
Key(f, i) == ToString(f[i]) \o "." \o ToString(f[i + 1]) \o "." \o ToString(f[i + 2]) \o "." \o ToString(f[i + 3])
(* The number of facets the header tells, or one more than any file here can have.                        *)
Count(f) == IF f[84] > 0 THEN Len(f) ELSE f[81] + 256 * f[82] + 65536 * f[83]
Needed(f) == IF Len(f) < 84 THEN 84 ELSE 84 + 50 * Count(f)
ReadBinary(f, floats) ==
  IF Len(f) < Needed(f) THEN [text |-> FALSE, corners |-> <<>>, verdict |-> "bad"]
  ELSE [text |-> FALSE, verdict |-> "good",
        corners |-> [n \in 1..3 * Count(f) |->
          LET at == 84 + 50 * ((n - 1) \div 3) + 12 * (1 + ((n - 1) % 3)) IN
          [k \in 1..3 |-> LET key == Key(f, at + 4 * k - 3) IN floats[key]]]]

Read(f, words, floats) == IF IsText(f) THEN ReadText(f, words) ELSE ReadBinary(f, floats)

(* fails: how many bytes can be read before an error, or -1. A reader of a binary file may notice an      *)
(* error after the last facet or not.                                                                     *)
ReadFailing(f, fails, words, floats) ==
  IF fails < 0 THEN Read(f, words, floats)
  ELSE LET r == Read(SubSeq(f, 1, IF fails < Len(f) THEN fails ELSE Len(f)), words, floats) IN
       [r EXCEPT !.verdict = IF r.text \/ @ = "bad" THEN "bad" ELSE "odd"]

(* ------------------------------------------------------------------ the model *)
(* The object has the corners in order: each is an existing vertex near it, or a new one equal to it, and *)
(* equal corners are one vertex. verts: positions of the vertices, tris: indices, from 1.                 *)
Between(a, b, near) ==
  LET ks == {near[a[k]][b[k]] : k \in 1..3} IN IF "far" \in ks THEN "far" ELSE IF "near" \in ks THEN "near" ELSE "eq"
IsMesh(corners, verts, tris, near) ==
  LET n == Len(corners)
      rel == TLCEval([a \in 1..n |-> [b \in 1..n |-> Between(corners[a], corners[b], near)]])
      step(s, p) == IF ~s.ok THEN s
                    ELSE LET i == tris[1 + ((p - 1) \div 3)][1 + ((p - 1) % 3)] IN
                         IF i \in Allowed(s.m, p, TRUE, rel) THEN [s EXCEPT !.m = After(s.m, p, TRUE, i)] ELSE [s EXCEPT !.ok = FALSE]
      end == FoldLeft(step, [ok |-> TRUE, m |-> Fresh(<<>>)], [k \in 1..n |-> k]) IN
  /\ 3 * Len(tris) = n
  /\ end.ok
  /\ Len(verts) = Len(end.m.verts)
  /\ \A v \in 1..Len(verts) : Between(verts[v], corners[end.m.verts[v]], near) = "eq"

(* When corners are far from each other unless they are equal, and come in order for the first time, the   *)
(* vertices are those corners in order, and the triangles name them. corner(f, k): which one.              *)
InOrder(n, corner(_, _), verts, tris) ==
  /\ Len(tris) = n
  /\ \A f \in 1..n : tris[f] = <<corner(f, 1), corner(f, 2), corner(f, 3)>>
  /\ Len(verts) = IF n = 0 THEN 0 ELSE corner(n, 3)
  /\ \A v \in DOMAIN verts : verts[v] = v

Plain == [name |-> "", pn |-> "", thumb |-> "", pid |-> "0", pidx |-> "0", type |-> "model", meta |-> [md |-> <<>>, attrs |-> <<>>], comps |-> <<>>, attrs |-> <<>>]
Ids(m) == {m.res.assets[i].id : i \in DOMAIN m.res.assets} \cup {m.res.objects[i].id : i \in DOMAIN m.res.objects}
============================================================================
