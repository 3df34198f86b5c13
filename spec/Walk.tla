------------------------------- MODULE Walk -------------------------------
(* Trace validation. The file named by the environment variable CASES has one recorded behaviour of the  *)
(* real code per line. Eight independent walkers consume it; each step asks whether the behaviour is one *)
(* the specification allows: Judge(line) is a record with ok, and exp, what the specification expects.   *)
(* A line has been judged when its walker has moved past it: lines + 8 distinct states in all.           *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANT Judge(_)

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES walker, pos

Init == walker \in 1..8 /\ pos = 0

Next ==
  LET i == walker + 8 * pos IN
  /\ i <= Len(Cases)
  /\ LET v == Judge(Cases[i]) IN
       IF v.ok THEN TRUE ELSE PrintT("BAD " \o ToJson([i |-> i, exp |-> v.exp]))
  /\ pos' = pos + 1
  /\ UNCHANGED walker

Spec == Init /\ [][Next]_<<walker, pos>>
===========================================================================
