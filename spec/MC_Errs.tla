------------------------------ MODULE MC_Errs ------------------------------
(* All programs of at most Depth operations. Every complete program is printed with what must be seen.   *)
EXTENDS Errs, Json
CONSTANT Depth, Width
VARIABLES prog, stack, leaves

Names == {"a", "b"}
Ops(k) ==
  {[o |-> "leaf", n |-> "e" \o ToString(k + 1)], [o |-> "nil"], [o |-> "app1"], [o |-> "app2"], [o |-> "app3"], [o |-> "appn", n |-> 4], [o |-> "turn"],
   [o |-> "wrap", n |-> "a"], [o |-> "wrapi", n |-> "b", i |-> 0], [o |-> "wrapi", n |-> "a", i |-> 12],
   [o |-> "wrapp", n |-> "c", p |-> "/x.model"]}

Init == prog = <<>> /\ stack = <<>> /\ leaves = 0
Next ==
  /\ Len(prog) < Depth
  /\ \E o \in Ops(leaves) :
       /\ Arity(o) <= Len(stack)
       /\ o.o \in {"leaf", "nil"} => Len(stack) < Width
       /\ prog' = Append(prog, o)
       /\ stack' = Op(o, stack)
       /\ leaves' = IF o.o = "leaf" THEN leaves + 1 ELSE leaves

(* No error is lost, duplicated or reordered: the members of the stack are the leaves, in order.         *)
Conserved == LET ms == Cat(stack) IN
  /\ Len(ms) = leaves
  /\ (\A i \in DOMAIN prog : prog[i].o # "turn") => \A i \in DOMAIN ms : ms[i].leaf = "e" \o ToString(i)
  /\ \A i \in 1..leaves : \E j \in DOMAIN ms : ms[j].leaf = "e" \o ToString(i)
Shape == \A i \in DOMAIN stack : LET v == stack[i] IN
  /\ v.k = "nil" => v.ms = <<>>
  /\ v.k = "one" => Len(v.ms) = 1
(* The number of levels of a member is the number of wraps it has been through.                          *)
Consistent == stack = Exec(prog, <<>>)

Emit == (Len(prog) = Depth) =>
  PrintT("CASE " \o ToJson([in |-> [prog |-> prog], exp |-> [st |-> [i \in DOMAIN stack |-> Obs(stack[i])]]]))
=============================================================================
