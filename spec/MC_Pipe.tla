------------------------------ MODULE MC_Pipe ------------------------------
(* Every way a destination can answer: printed as plans for the real encoder.                             *)
EXTENDS Pipe, TLC, Json
Emit == (pc = "done" /\ Faults(plan) > 0) => PrintT("CASE " \o ToJson([plan |-> plan, exp |-> result]))
=============================================================================
