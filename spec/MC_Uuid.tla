------------------------------ MODULE MC_Uuid ------------------------------
(* Every string at an edit distance of at most Depth from the accepted forms, over chosen characters.    *)
EXTENDS Uuid, Json
CONSTANTS Depth, Chars
VARIABLES s, edits

Hyph == "01234567-89ab-4cdE-AF01-23456789abCD"
Plain == "0123456789abcdefABCDEF9876543210"
Bases == {Hyph, "urn:uuid:" \o Hyph, "URN:Uuid:" \o Hyph, "{" \o Hyph \o "}", Plain}

Sub(x, i, c) == SubSeq(x, 1, i - 1) \o c \o SubSeq(x, i + 1, Len(x))
Ins(x, i, c) == SubSeq(x, 1, i - 1) \o c \o SubSeq(x, i, Len(x))
Del(x, i) == SubSeq(x, 1, i - 1) \o SubSeq(x, i + 1, Len(x))
Swap(x, i) == SubSeq(x, 1, i - 1) \o At(x, i + 1) \o At(x, i) \o SubSeq(x, i + 2, Len(x))

Init == edits = 0 /\ s \in Bases \cup {"", "urn:uuid:", "{}", "{" \o Plain \o "}", "urn:uuid:" \o Plain, "{urn:uuid:" \o Hyph \o "}",
                                       "urn:uuid:{" \o Hyph \o "}", Hyph \o Hyph, Plain \o Plain, Hyph \o " ", " " \o Hyph}
Next ==
  /\ edits < Depth
  /\ edits' = edits + 1
  /\ \/ \E i \in 1..Len(s), c \in Chars : s' = Sub(s, i, c)
     \/ \E i \in 1..(Len(s) + 1), c \in Chars : s' = Ins(s, i, c)
     \/ \E i \in 1..Len(s) : s' = Del(s, i)
     \/ \E i \in 1..(Len(s) - 1) : s' = Swap(s, i)
     \/ s # "" /\ s' = SubSeq(s, 2, Len(s)) \o At(s, 1)

View == s
OneForm == Accept(s) => Len(s) \in {32, 36, 38, 45}
(* The accepted strings are closed under changing the case of a digit and under replacing digits.        *)
Closed == Accept(s) => \A i \in 1..Len(s) : At(s, i) \in {"0", "9"} => Accept(Sub(s, i, "F")) /\ ~Accept(Sub(s, i, "g"))
Emit == PrintT("CASE " \o ToJson([s |-> s, ok |-> Accept(s)]))
=============================================================================
