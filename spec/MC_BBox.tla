------------------------------ MODULE MC_BBox ------------------------------
(* All component graphs over three objects in two parts, with transforms of every kind.                  *)
EXTENDS Geometry, Json
CONSTANTS Trs
VARIABLES objs, items, done

Root == "/3D/root.model"
Child == "/3D/child.model"
Ref == [oid : {1, 2, 3, 9}, path : {"", Child}, tr : Trs]
MeshObj(id, vs) == [id |-> id, mesh |-> TRUE, vs |-> vs, hascomps |-> FALSE, comps |-> <<>>]
CompObj(id, cs) == [id |-> id, mesh |-> FALSE, vs |-> <<>>, hascomps |-> TRUE, comps |-> cs]
Tri == <<<<1, 2, 3>>, <<-2, 5, 4>>, <<7, -1, 0>>>>
Model == [rootpath |-> Root, parts |-> <<[path |-> Root, objs |-> SelectSeq(objs, LAMBDA o : o.id # 3)],
                     [path |-> Child, objs |-> SelectSeq(objs, LAMBDA o : o.id # 2)]>>, items |-> items, rep |-> 2]

Init == objs = <<MeshObj(1, Tri)>> /\ items = <<>> /\ done = FALSE
Next ==
  \/ /\ ~done /\ Len(objs) < 3
     /\ \/ \E r \in Ref : objs' = Append(objs, CompObj(Len(objs) + 1, <<r>>))
        \/ Len(objs) = 1 /\ \E r \in Ref, s \in Ref : r.oid # s.oid /\ s.tr = <<>> /\ objs' = Append(objs, CompObj(2, <<r, s>>))
        \/ objs' = Append(objs, MeshObj(Len(objs) + 1, <<>>))
     /\ UNCHANGED <<items, done>>
  \/ /\ ~done /\ Len(objs) = 3
     /\ \E r \in [oid : {2, 3, 9}, path : {"", Child}, tr : {<<>>, <<0, 1, 0, -1, 0, 0, 0, 0, 1, 5, 6, 7>>}] : items' = <<r>>
     /\ done' = TRUE /\ UNCHANGED objs

Ordered == done => \A k \in 1..3 : ModelBox(Model)[1][k] <= ModelBox(Model)[2][k]
Emit == done => PrintT("CASE " \o ToJson([in |-> Model, exp |-> [box |-> IF Cyclic(Model) THEN <<>> ELSE ModelBox(Model), same |-> TRUE, meshes |-> MeshBoxes(Model)]]))
=============================================================================
