------------------------------ MODULE MC_Rules ------------------------------
(* Every choice of one or two checked attributes, each malformed, in a root or in a child part.          *)
EXTENDS Codec, Json
CONSTANT Pairs
VARIABLES r1, r2, child

Uniform == {<<r[1], "", r[2], r[3], r[4]>> : r \in Rules} \cup ForeignRules
None == <<"", "", "", "", FALSE>>
RootOnly == {"core:model", "core:build", "core:item"}

Init == /\ r1 \in Uniform
        /\ r2 \in (IF Pairs THEN Uniform \cup {None} ELSE {None})
        /\ child \in BOOLEAN
Next == UNCHANGED <<r1, r2, child>>

(* An attribute has one rule, and RuleOf finds it.                                                       *)
Sound == /\ \A r \in Uniform : r[1] = r1[1] /\ r[2] = r1[2] /\ r[3] = r1[3] => r = r1
         /\ RuleOf(r1[1], [ns |-> r1[2], n |-> r1[3]]) = <<r1[1], r1[3], r1[4], r1[5]>>
(* Only known notations, so that Failures is defined.                                                    *)
Known1 == r1[4] \in {"u", "f", "m", "us", "fs", "color", "uuid", "unit", "type", "clip", "cap", "res"}

Emit == IF child /\ ({r1[1], r2[1]} \cap RootOnly) # {} THEN TRUE
        ELSE PrintT("CASE " \o ToJson([child |-> child, rules |-> IF r2 = None THEN <<r1>> ELSE <<r1, r2>>]))
=============================================================================
