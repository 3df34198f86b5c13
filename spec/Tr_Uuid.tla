------------------------------ MODULE Tr_Uuid ------------------------------
EXTENDS Uuid, Walk
Expect(c) ==
  IF c.op = "uuidnew"
  THEN [rs |-> [k \in 1..(Len(c.bytes) \div 16) |->
                 LET u == New(SubSeq(c.bytes, 16 * k - 15, 16 * k)) IN [s |-> u, ok |-> Accept(u) /\ Canonical(u)]], fresh |-> TRUE]
  ELSE [rs |-> [k \in DOMAIN c.ss |-> LET a == Accept(c.ss[k]) v == IF a THEN "accept" ELSE "reject" IN
                 [ok |-> a, dec |-> v, val |-> v]]]
JudgeUuid(c) == LET e == Expect(c.case) IN [ok |-> e = c.out, exp |-> e]
=============================================================================
