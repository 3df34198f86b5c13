----------------------------- MODULE Coherency -----------------------------
(* C19. When a mesh is a closed, consistently oriented surface.                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

EdgesOf(t) == <<<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>>>
AllEdges(ts) == UNION {{EdgesOf(ts[i])[k] : k \in 1..3} : i \in DOMAIN ts}
Uses(ts, e) == Cardinality({<<i, k>> \in (DOMAIN ts) \X (1..3) : EdgesOf(ts[i])[k] = e})
(* Every edge is shared by exactly two triangles, which traverse it in opposite directions.              *)
Closed(ts) == \A e \in AllEdges(ts) : Uses(ts, e) = 1 /\ Uses(ts, <<e[2], e[1]>>) = 1
(* The same: every side of a triangle is a different edge, and every edge has its reverse.               *)
Paired(ts) == LET E == TLCEval({EdgesOf(ts[i])[k] : i \in DOMAIN ts, k \in 1..3}) IN Cardinality(E) = 3 * Len(ts) /\ \A e \in E : <<e[2], e[1]>> \in E

Verdict(nv, ts) ==
  IF nv < 3 THEN "InsufficientVertices"
  ELSE IF Len(ts) < 4 THEN "InsufficientTriangles"
  ELSE IF (IF Len(ts) < 200 THEN Closed(ts) ELSE Paired(ts)) THEN "ok" ELSE "MeshConsistency"

Solid(o) == o.mesh /\ o.type \in {"model", "solidsupport"}
(* The errors of a model: one for each solid object whose mesh is not accepted.                          *)
Errors(c) ==
  UNION {{[x |-> "/model/resources/object[" \o ToString(j - 1) \o "]/mesh", p |-> IF i = 1 THEN "" ELSE c.parts[i].path,
           c |-> Verdict(c.parts[i].objs[j].nv, c.parts[i].objs[j].ts)] :
             j \in {j \in DOMAIN c.parts[i].objs : Solid(c.parts[i].objs[j]) /\ Verdict(c.parts[i].objs[j].nv, c.parts[i].objs[j].ts) # "ok"}} :
         i \in DOMAIN c.parts}
============================================================================
