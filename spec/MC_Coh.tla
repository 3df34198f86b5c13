------------------------------- MODULE MC_Coh -------------------------------
(* Every multiset of oriented triangles over NV vertices, up to Max triangles, built one face at a time. *)
EXTENDS Coherency, Json
CONSTANTS NV, Max
VARIABLES ts, last

V == 0..(NV - 1)
Triples == {t \in V \X V \X V : t[1] < t[2] /\ t[1] < t[3] /\ t[2] # t[3]}   \* oriented, smallest vertex first
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Faces == SeqOf(Triples)
Rot(t, k) == IF k = 0 THEN t ELSE IF k = 1 THEN <<t[2], t[3], t[1]>> ELSE <<t[3], t[1], t[2]>>

Init == ts = <<>> /\ last = 1
Next ==
  /\ Len(ts) < Max
  /\ \E f \in last..Len(Faces) :
       /\ last' = f
       /\ ts' = Append(ts, Rot(Faces[f], (f + Len(ts)) % 3))

Flip(t) == <<t[3], t[2], t[1]>>
(* Turning the whole surface inside out does not change the verdict.                                     *)
Symmetric == Len(ts) > 3 => (Closed(ts) <=> Closed([i \in DOMAIN ts |-> Flip(ts[i])]))
(* A closed surface has an even number of triangles and a directed edge for each triangle side.          *)
Even == (Len(ts) > 3 /\ Closed(ts)) => Len(ts) % 2 = 0 /\ Cardinality(AllEdges(ts)) = 3 * Len(ts)
Same == Closed(ts) <=> Paired(ts)
Emit == PrintT("CASE " \o ToJson([in |-> [nv |-> NV, ts |-> ts], exp |-> Verdict(NV, ts)]))
=============================================================================
