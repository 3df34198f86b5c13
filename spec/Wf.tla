--------------------------------- MODULE Wf ---------------------------------
(* C06. Which texts are well-formed documents: a machine that reads a document character by character.   *)
(* Its verdict at the end of the text is "ok", "reject" (it is not well formed: a decoder has to report   *)
(* it) or "any" (it breaks only a constraint that the decoder may or may not check: no or several root     *)
(* elements, text around the root, a document type, names starting with a digit, attributes repeated or     *)
(* not separated, "]]>" in text, ...).                                                                      *)
(* The open elements are a sequence of [n, k]: k elements named n inside each other.                        *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json

Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
Start == Lower \cup Upper \cup {"_"}
NameChar == Start \cup Digits \cup {"-", "."}
Blank == {" ", "\t", "\n", "\r"}
Ascii == NameChar \cup Blank \cup {"<", ">", "/", "=", "\"", "'", "&", ";", "!", "?", "[", "]", ":", "#", ",", "(", ")", "{", "}", "%", "+", "*", "$", "@", "^", "`", "|", "~", "\\"}
Entities == {"lt", "gt", "amp", "apos", "quot"}

Begin == [m |-> "text", st |-> <<>>, nm |-> "", q |-> "", back |-> "text", at |-> {}, left |-> "", loose |-> FALSE, roots |-> 0, brk |-> 0, pre |-> {}]

Push(s, n) ==
  LET k == Len(s.st) IN
  [s EXCEPT !.m = "text", !.brk = 0, !.roots = IF k = 0 THEN @ + 1 ELSE @,
            !.st = IF k > 0 /\ s.st[k].n = n THEN [@ EXCEPT ![k].k = @ + 1] ELSE Append(@, [n |-> n, k |-> 1])]
Pop(s, n) ==
  LET k == Len(s.st) IN
  IF k = 0 \/ (k > 0 /\ s.st[k].n # n) THEN [s EXCEPT !.m = "bad"]
  ELSE [s EXCEPT !.m = "text", !.brk = 0, !.st = IF s.st[k].k = 1 THEN SubSeq(@, 1, k - 1) ELSE [@ EXCEPT ![k].k = @ - 1]]
Loosely(s) == [s EXCEPT !.loose = TRUE]
Bad(s) == [s EXCEPT !.m = "bad"]
To(s, m) == [s EXCEPT !.m = m]
More(s, c) == [s EXCEPT !.nm = @ \o c]

(* A number in a reference: decimal, or hexadecimal after x. Those that are no character may pass.        *)
IsDec(r) == Len(r) > 1 /\ \A i \in 2..Len(r) : SubSeq(r, i, i) \in Digits
IsHex(r) == Len(r) > 2 /\ SubSeq(r, 2, 2) = "x" /\ \A i \in 3..Len(r) : SubSeq(r, i, i) \in Digits \cup {"a","b","c","d","e","f","A","B","C","D","E","F"}
Plain(r) == (IsDec(r) /\ r \in {"#9", "#10", "#13"} \cup {"#" \o ToString(i) : i \in 32..255}) \/ r \in {"#x9", "#xA", "#xD", "#x41", "#xe9", "#x4e2d", "#x1F600"}
RefEnd(s) ==
  IF s.nm \in Entities \/ Plain(s.nm) THEN To(s, s.back)
  ELSE IF IsDec(s.nm) \/ IsHex(s.nm) THEN Loosely(To(s, s.back))
  ELSE Bad(s)

(* A name has at most one colon, in the middle; its prefix needs a declaration, which is only followed in  *)
(* the root element (pre).                                                                                *)
Cuts(n) == {i \in 1..Len(n) : SubSeq(n, i, i) = ":"}
Halves(n) == LET i == CHOOSE i \in Cuts(n) : TRUE IN <<SubSeq(n, 1, i - 1), SubSeq(n, i + 1, Len(n))>>
Split(n) == Cardinality(Cuts(n)) = 1 /\ Halves(n)[1] # "" /\ Halves(n)[2] # "" /\ SubSeq(Halves(n)[2], 1, 1) \in Start
Declares(n) == Split(n) /\ Halves(n)[1] = "xmlns" /\ Halves(n)[2] \notin {"xml", "xmlns"}
OddName(s, n) == Cuts(n) # {} /\ ~(Split(n) /\ Halves(n)[1] \in s.pre)

InTag(s, c, apart) ==
  IF c \in Blank THEN To(s, "tag")
  ELSE IF c = ">" THEN Push(s, s.left)
  ELSE IF c = "/" THEN To(s, "slash")
  ELSE IF c \in Start THEN (IF apart THEN [s EXCEPT !.m = "attr", !.nm = c] ELSE [s EXCEPT !.m = "attr", !.nm = c, !.loose = TRUE])
  ELSE IF c \in Digits \cup {"-", ".", ":"} \/ c \notin Ascii THEN [s EXCEPT !.m = "attr", !.nm = c, !.loose = TRUE]
  ELSE Bad(s)
AttrDone(s, m) ==
  LET d == s.st = <<>> /\ Declares(s.nm) IN
  [s EXCEPT !.m = m, !.loose = @ \/ s.nm \in s.at \/ (Cuts(s.nm) # {} /\ ~d), !.at = @ \cup {s.nm}, !.pre = IF d THEN @ \cup {Halves(s.nm)[2]} ELSE @]
NameStep(s, c, m) == IF c \in NameChar \cup {":"} THEN More(s, c) ELSE Loosely(More(s, c))
NameDone(s) == IF OddName(s, s.nm) THEN Loosely(s) ELSE s
IsName(c) == c \in NameChar \cup {":"} \/ c \notin Ascii

Step(s, c) ==
  CASE s.m \in {"bad", "any"} -> s
    [] s.m = "text" ->
         IF c = "<" THEN [s EXCEPT !.m = "lt", !.brk = 0]
         ELSE IF c = "&" THEN [s EXCEPT !.m = "ref", !.back = "text", !.nm = "", !.brk = 0, !.loose = @ \/ s.st = <<>>]
         ELSE [s EXCEPT !.brk = IF c = "]" THEN @ + 1 ELSE 0,
                        !.loose = @ \/ (s.st = <<>> /\ c \notin Blank) \/ (c = ">" /\ s.brk >= 2) \/ (c \notin Ascii /\ s.st = <<>>)]
    [] s.m = "lt" ->
         IF c = "/" THEN To(s, "close0")
         ELSE IF c = "?" THEN To(s, "pi0")
         ELSE IF c = "!" THEN To(s, "bang")
         ELSE IF c \in Start THEN [s EXCEPT !.m = "open", !.nm = c, !.at = {}]
         ELSE IF IsName(c) THEN [s EXCEPT !.m = "open", !.nm = c, !.at = {}, !.loose = TRUE]
         ELSE Bad(s)
    [] s.m = "open" ->
         IF IsName(c) THEN NameStep(s, c, "open") ELSE InTag([NameDone(s) EXCEPT !.left = s.nm], c, FALSE)
    [] s.m = "tag" -> InTag(s, c, TRUE)
    [] s.m = "tag0" -> InTag(s, c, FALSE)
    [] s.m = "attr" ->
         IF IsName(c) THEN NameStep(s, c, "attr")
         ELSE IF c = "=" THEN AttrDone(s, "eq") ELSE IF c \in Blank THEN AttrDone(s, "attrSp") ELSE Bad(s)
    [] s.m = "attrSp" -> IF c \in Blank THEN s ELSE IF c = "=" THEN To(s, "eq") ELSE Bad(s)
    [] s.m = "eq" -> IF c \in Blank THEN s ELSE IF c \in {"\"", "'"} THEN [s EXCEPT !.m = "val", !.q = c, !.brk = 0] ELSE Bad(s)
    [] s.m = "val" ->
         IF c = s.q THEN To(IF s.brk = 0 /\ Declares(s.nm) THEN Loosely(s) ELSE s, "tag0") ELSE IF c = "<" THEN Bad(s)
         ELSE IF c = "&" THEN [s EXCEPT !.m = "ref", !.back = "val", !.nm = "", !.brk = 1] ELSE [s EXCEPT !.brk = 1]
    [] s.m = "slash" -> IF c = ">" THEN [s EXCEPT !.m = "text", !.brk = 0, !.roots = IF s.st = <<>> THEN @ + 1 ELSE @] ELSE Bad(s)
    [] s.m = "close0" -> IF c \in Start THEN [s EXCEPT !.m = "close", !.nm = c] ELSE IF IsName(c) THEN [s EXCEPT !.m = "close", !.nm = c, !.loose = TRUE] ELSE Bad(s)
    [] s.m = "close" -> IF IsName(c) THEN NameStep(s, c, "close") ELSE IF c \in Blank THEN To(s, "closeSp") ELSE IF c = ">" THEN Pop(s, s.nm) ELSE Bad(s)
    [] s.m = "closeSp" -> IF c \in Blank THEN s ELSE IF c = ">" THEN Pop(s, s.nm) ELSE Bad(s)
    [] s.m = "ref" -> IF c = ";" THEN RefEnd(s) ELSE IF c \in NameChar \cup {"#", ":"} THEN More(s, c) ELSE Bad(s)
    [] s.m = "bang" ->
         IF c = "-" THEN To(s, "bang-") ELSE IF c = "[" THEN [s EXCEPT !.m = "cd", !.left = "CDATA[", !.loose = @ \/ s.st = <<>>]
         ELSE IF c = "D" THEN To(s, "any") ELSE Bad(s)
    [] s.m = "bang-" -> IF c = "-" THEN To(s, "com") ELSE Bad(s)
    [] s.m = "com" -> IF c = "-" THEN To(s, "com1") ELSE s
    [] s.m = "com1" -> IF c = "-" THEN To(s, "com2") ELSE To(s, "com")
    [] s.m = "com2" -> IF c = ">" THEN [s EXCEPT !.m = "text", !.brk = 0] ELSE Bad(s)
    [] s.m = "cd" -> IF s.left = c THEN [s EXCEPT !.m = "cdata", !.brk = 0]
                     ELSE IF SubSeq(s.left, 1, 1) = c THEN [s EXCEPT !.left = SubSeq(@, 2, Len(@))] ELSE Bad(s)
    [] s.m = "cdata" -> IF c = ">" /\ s.brk >= 2 THEN [s EXCEPT !.m = "text", !.brk = 0] ELSE [s EXCEPT !.brk = IF c = "]" THEN @ + 1 ELSE 0]
    [] s.m = "pi0" -> IF c \in Start THEN [s EXCEPT !.m = "pi", !.nm = c, !.brk = 0] ELSE IF IsName(c) THEN [s EXCEPT !.m = "pi", !.nm = c, !.loose = TRUE, !.brk = 0] ELSE Bad(s)
    [] s.m = "pi" -> IF IsName(c) THEN NameStep(s, c, "pi") ELSE IF c = "?" THEN To(IF Cuts(s.nm) # {} THEN Loosely(s) ELSE s, "pi?")
                     ELSE IF c \in Blank THEN To([s EXCEPT !.loose = @ \/ Cuts(s.nm) # {} \/ (s.nm \in {"xml", "XML"} /\ s.roots > 0)], "pi1")
                     ELSE Loosely(To(s, "pi1"))
    [] s.m = "pi1" -> IF c = "?" THEN To(s, "pi?") ELSE s
    [] s.m = "pi?" -> IF c = ">" THEN [s EXCEPT !.m = "text", !.brk = 0] ELSE IF c = "?" THEN s ELSE To(s, "pi1")

Chars(text) == [i \in 1..Len(text) |-> SubSeq(text, i, i)]
Feed(s, text) == FoldLeft(Step, s, Chars(text))
Times(s, text, k) == LET cs == Chars(text) IN FoldLeft(LAMBDA r, i : FoldLeft(Step, r, cs), s, [i \in 1..k |-> i])

Verdict(s) ==
  IF s.m = "any" THEN "any"
  ELSE IF s.m # "text" \/ s.st # <<>> THEN "reject"
  ELSE IF s.loose \/ s.roots # 1 THEN "any" ELSE "ok"
=============================================================================
