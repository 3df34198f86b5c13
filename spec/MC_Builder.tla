------------------------------ MODULE MC_Builder ------------------------------
(* All sequences of additions of five positions: 1 and 2 equal, 3 near them, 4 and 5 far from everything. *)
EXTENDS Builder, Json
CONSTANTS Depth, NP
VARIABLES adds, s, conn0

Kind(a, b) == IF a = b \/ {a, b} = {1, 2} THEN "eq" ELSE IF {a, b} \subseteq {1, 2, 3} THEN "near" ELSE "far"
Rel == [a \in 1..NP |-> [b \in 1..NP |-> Kind(a, b)]]
Init == conn0 \in BOOLEAN /\ adds = <<>> /\ s = Fresh(<<4>>)
Next == /\ Len(adds) < Depth
        /\ \E p \in 1..NP, c \in BOOLEAN :
             /\ adds' = Append(adds, [p |-> p, conn |-> c])
             /\ \E i \in Allowed(s, p, c, Rel) : s' = After(s, p, c, i)
        /\ UNCHANGED conn0

(* Equal positions have one index, answers point at the position, nothing far is ever merged.             *)
OneIndex == \A a, b \in s.known : Rel[a[1]][b[1]] = "eq" => a[2] = b[2]
Faithful == \A a \in s.known : Rel[a[1]][s.verts[a[2]]] # "far"
Kept == s.verts[1] = 4
Stable == [][SubSeq(s'.verts, 1, Len(s.verts)) = s.verts]_s
Emit == (Len(adds) = Depth) => PrintT("CASE " \o ToJson([conn |-> conn0, adds |-> adds]))
===============================================================================
