------------------------------- MODULE Builder -------------------------------
(* C20. The vertices of a mesh under construction. Positions are numbers, related by Rel: "eq" (the same *)
(* coordinates), "near" (each within a few millionths of a unit) or "far".                               *)
EXTENDS Naturals, Sequences, TLC

(* verts: positions stored, in order. known: <<position, index>> answered while merging was enabled.      *)
Fresh(pre) == [verts |-> pre, known |-> {}]

(* Adding p may answer an existing vertex that is p up to a few millionths, or a new one at the end that  *)
(* is exactly p. Positions added before while merging, and equal to p, fix the answer.                   *)
Allowed(s, p, conn, rel) ==
  LET same == {k \in s.known : rel[k[1]][p] = "eq"}
      n == Len(s.verts) IN
  IF ~conn THEN {n + 1}
  ELSE IF same # {} THEN {k[2] : k \in same}
  ELSE {n + 1} \cup {i \in 1..n : rel[s.verts[i]][p] \in {"eq", "near"}}

After(s, p, conn, i) ==
  [verts |-> IF i > Len(s.verts) THEN Append(s.verts, p) ELSE s.verts,
   known |-> IF conn THEN s.known \cup {<<p, i>>} ELSE s.known]

(* When all positions are equal or far, a history is right when each of its steps is: the vertex answered  *)
(* is the position, it is the next one or else an old one, and it is the one answered before if merging    *)
(* was enabled. adds: what is added, conn: whether merging, is: the answers, ns: the number of vertices     *)
(* after each step, m: the number before; first[k]: an earlier step with merging and the same position, or *)
(* k; vs: the positions of the vertices at the end.                                                         *)
Pointwise(adds, conn, is, ns, m, first, vs, Eq(_, _)) ==
  /\ \A k \in DOMAIN adds :
       LET before == IF k = 1 THEN m ELSE ns[k - 1] IN
       /\ is[k] \in DOMAIN vs
       /\ Eq(vs[is[k]], adds[k])
       /\ IF is[k] = before + 1 THEN ns[k] = before + 1 ELSE conn[k] /\ is[k] <= before /\ ns[k] = before
       /\ conn[k] => is[k] = is[first[k]]
  /\ Len(vs) = ns[Len(adds)]
==============================================================================
