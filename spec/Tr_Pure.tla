------------------------------ MODULE Tr_Pure ------------------------------
(* Judges recorded histories. out.steps has for each step the answers and the states of the models after  *)
(* it, out.late the answers of the whole history looked at again at its end; case.ref has the answers and *)
(* states of the same models in processes of their own.                                                   *)
EXTENDS Pure, Walk, SequencesExt

RECURSIVE Bad(_, _, _, _)
Bad(c, o, version, i) ==
  IF i > Len(c.steps) THEN {}
  ELSE LET step == c.steps[i]
           next == Changed(version, step)
           got == o.steps[i]
           wrong == IF step[1].op = "touch" THEN {}
                    ELSE {[step |-> i, m |-> step[k].m, op |-> step[k].op, what |-> "answer"] : k \in {k \in DOMAIN step : got.answers[k] # Answer(c.ref, step[k], version)}}
                    \cup {[step |-> i, m |-> step[k].m, op |-> step[k].op, what |-> "answer looked at again"] : k \in {k \in DOMAIN step : o.late[i][k] # got.answers[k]}}
           moved == {[step |-> i, m |-> m, op |-> step[1].op, what |-> "model"] : m \in {m \in DOMAIN version : got.states[m] # State(c.ref, m, next)}}
       IN wrong \cup moved \cup Bad(c, o, next, i + 1)

JudgePure(r) ==
  LET b == Bad(r.case, r.out, [m \in DOMAIN r.case.ref |-> 0], 1) IN
  IF b = {} THEN [ok |-> TRUE] ELSE [ok |-> FALSE, exp |-> [same_as_alone |-> b]]
=============================================================================
