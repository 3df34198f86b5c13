------------------------------ MODULE MC_Pure ------------------------------
(* Every history of a few steps: each is one operation, some at the same time, or a change of a model.    *)
EXTENDS Pure, TLC, Json

CONSTANTS Ops, Models, MaxSteps, MaxPar, MaxTouch
VARIABLES version, hist, answers
vars == <<version, hist, answers>>

Does == [m : 1..Models, op : Ops]
\* sequences that stand for multisets of simultaneous operations
RECURSIVE Bags(_)
Bags(n) == IF n = 1 THEN {<<d>> : d \in Does} ELSE {Append(b, d) : b \in Bags(n - 1), d \in Does}
\* symbolic answers: what is asked and the value it is asked of
Ref == [m \in 1..Models |-> [v \in 1..(MaxTouch + 1) |-> [o \in Ops |-> <<m, v, o>>]]]

Init == version = [m \in 1..Models |-> 0] /\ hist = <<>> /\ answers = {}
Ask == \E n \in 1..MaxPar : \E b \in Bags(n) :
         /\ hist' = Append(hist, b)
         /\ answers' = answers \cup {[o |-> b[i], version |-> version, a |-> Answer(Ref, b[i], version)] : i \in DOMAIN b}
         /\ UNCHANGED version
Touch == \E m \in 1..Models : LET step == <<[m |-> m, op |-> "touch"]>> IN
           /\ version[m] < MaxTouch
           /\ hist' = Append(hist, step) /\ version' = Changed(version, step) /\ UNCHANGED answers
Next == Len(hist) < MaxSteps /\ (Ask \/ Touch)

(* C24: equal questions have equal answers, whatever happened in between, and to the other models.        *)
Function == \A x, y \in answers : x.o = y.o /\ x.version[x.o.m] = y.version[y.o.m] => x.a = y.a
Emit == Len(hist) = MaxSteps => PrintT("CASE " \o ToJson(hist))
=============================================================================
