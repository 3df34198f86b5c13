------------------------------- MODULE Uuid -------------------------------
(* C23. Which strings are identifiers, and how identifiers are made of random bytes.                     *)
EXTENDS Naturals, Sequences, TLC

HexL == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Digits == {HexL[i] : i \in 1..16} \cup {"A", "B", "C", "D", "E", "F"}
At(s, i) == SubSeq(s, i, i)

AllHex(s, is) == \A i \in is : At(s, i) \in Digits
Hyphens == {9, 14, 19, 24}
Canonical(s) ==
  /\ Len(s) = 36
  /\ \A i \in Hyphens : At(s, i) = "-"
  /\ AllHex(s, (1..36) \ Hyphens)

Urn == <<{"u", "U"}, {"r", "R"}, {"n", "N"}, {":"}, {"u", "U"}, {"u", "U"}, {"i", "I"}, {"d", "D"}, {":"}>>

Accept(s) ==
  \/ Canonical(s)
  \/ Len(s) = 45 /\ (\A i \in 1..9 : At(s, i) \in Urn[i]) /\ Canonical(SubSeq(s, 10, 45))
  \/ Len(s) = 38 /\ At(s, 1) = "{" /\ At(s, 38) = "}" /\ Canonical(SubSeq(s, 2, 37))
  \/ Len(s) = 32 /\ AllHex(s, 1..32)

(* Version 4, variant 10.                                                                                *)
Byte(b) == HexL[(b \div 16) + 1] \o HexL[(b % 16) + 1]
Stamp(bs) == [i \in 1..16 |-> IF i = 7 THEN 64 + (bs[7] % 16) ELSE IF i = 9 THEN 128 + (bs[9] % 64) ELSE bs[i]]
RECURSIVE Hex(_, _, _)
Hex(bs, i, j) == IF i > j THEN "" ELSE Byte(bs[i]) \o Hex(bs, i + 1, j)
New(bs) == LET b == Stamp(bs) IN
  Hex(b, 1, 4) \o "-" \o Hex(b, 5, 6) \o "-" \o Hex(b, 7, 8) \o "-" \o Hex(b, 9, 10) \o "-" \o Hex(b, 11, 16)
===========================================================================
