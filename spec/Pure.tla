-------------------------------- MODULE Pure --------------------------------
(* What a program does with some models: operations that read them, alone or several at once, and changes *)
(* that it makes itself. The answer of an operation depends on the operation and on the value of its      *)
(* model, which is here the number of times it was changed, and on nothing else.                          *)
EXTENDS Naturals, Sequences, FiniteSets

Answer(ref, o, version) == ref[o.m][version[o.m] + 1][o.op]
State(ref, m, version) == ref[m][version[m] + 1].state
Changed(version, step) == IF Len(step) = 1 /\ step[1].op = "touch" THEN [version EXCEPT ![step[1].m] = @ + 1] ELSE version
=============================================================================
