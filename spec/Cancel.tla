------------------------------- MODULE Cancel -------------------------------
(* Tasks that read elements and look, every Period elements, whether the context has ended.               *)
(* The children come first, each as a task of its own, and then the root; an import of STL is a root      *)
(* without children.                                                                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Sizes,   \* elements of each task, the root being the last
          Period
VARIABLES done,    \* elements read by each task
          st,      \* wait, run, ok, stopped
          ended,   \* the context has ended
          at,      \* the elements that each had read then
          result

vars == <<done, st, ended, at, result>>
T == DOMAIN Sizes
RootT == Len(Sizes)
Init == /\ done = [k \in T |-> 0] /\ st = [k \in T |-> IF k = RootT /\ Len(Sizes) > 1 THEN "wait" ELSE "run"]
        /\ ended = FALSE /\ at = done /\ result = "none"

Looks(k) == done[k] % Period = 0
Step(k) == /\ st[k] = "run" /\ result = "none"
           /\ IF Looks(k) /\ ended THEN st' = [st EXCEPT ![k] = "stopped"] /\ UNCHANGED done
              ELSE IF done[k] = Sizes[k] THEN st' = [st EXCEPT ![k] = "ok"] /\ UNCHANGED done
              ELSE done' = [done EXCEPT ![k] = @ + 1] /\ UNCHANGED st
           /\ UNCHANGED <<ended, at, result>>
Kids == {k \in T : k < RootT}
(* After the children the loader looks once more.                                                        *)
StartRoot == /\ st[RootT] = "wait" /\ \A k \in Kids : st[k] = "ok" /\ ~ended
             /\ st' = [st EXCEPT ![RootT] = "run"] /\ UNCHANGED <<done, ended, at, result>>
End == ~ended /\ result = "none" /\ ended' = TRUE /\ at' = done /\ UNCHANGED <<done, st, result>>
Return == /\ result = "none"
          /\ \/ st[RootT] = "ok" /\ result' = "ok"
             \/ st[RootT] = "stopped" /\ result' = "ctx"
             \/ st[RootT] = "wait" /\ ended /\ (\A k \in Kids : st[k] # "run") /\ result' = "ctx"
          /\ UNCHANGED <<done, st, ended, at>>
Next == StartRoot \/ End \/ Return \/ \E k \in T : Step(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(StartRoot \/ Return \/ \E k \in T : Step(k))

(* C08. *)
Bounded == ended => \A k \in T : done[k] <= at[k] + Period
Reported == (result = "ok" /\ ended) => (\A k \in Kids : at[k] = Sizes[k]) /\ at[RootT] + Period >= Sizes[RootT]
Never == (result # "none" /\ ended /\ \A k \in T : at[k] = 0) => result = "ctx" \/ Sizes[RootT] < Period
Returns == <>(result # "none")
=============================================================================
