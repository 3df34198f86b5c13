------------------------------- MODULE Tr_Coh -------------------------------
EXTENDS Coherency, Walk
JudgeCoh(c) ==
  IF "meshes" \in DOMAIN c.case
  THEN LET e == [k \in DOMAIN c.case.meshes |-> Verdict(c.case.meshes[k].nv, c.case.meshes[k].ts)] IN [ok |-> e = c.out.rs, exp |-> e]
  ELSE LET e == Errors(c.case) o == c.out.errs IN
       [ok |-> /\ {o[k] : k \in DOMAIN o} = e
               /\ Len(o) = Cardinality(e)
               /\ c.out.nil = (e = {}),
        exp |-> e]
=============================================================================
