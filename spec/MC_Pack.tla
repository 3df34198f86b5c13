------------------------------ MODULE MC_Pack ------------------------------
(* All small models as far as packages are concerned, with what writing and reading them must do.         *)
EXTENDS Package, Json
CONSTANTS MaxSteps, Paths, ChildPaths, AttPaths, RelPaths, Types
VARIABLES m, steps

RelOf(t, p, id) == [id |-> id, type |-> t, path |-> p]
Init ==
  /\ steps = 0
  /\ \E p \in Paths : m = [path |-> p, tag |-> "root", thumb |-> "", rels |-> <<>>, rrels |-> <<>>, imp |-> <<>>, childs |-> <<>>, atts |-> <<>>]

AddChild == \E p \in ChildPaths : /\ \A i \in DOMAIN m.childs : m.childs[i].path # p
                                  /\ m' = [m EXCEPT !.childs = Append(@, [path |-> p, tag |-> "child" \o p, rels |-> <<>>, imp |-> <<>>])]
AddAtt == \E p \in AttPaths : m' = [m EXCEPT !.atts = Append(@, [path |-> p, ct |-> IF Len(m.atts) % 2 = 0 THEN "image/png" ELSE "text/plain", data |-> "data" \o ToString(Len(m.atts))])]
AddRel == \E t \in Types, p \in RelPaths, id \in {"", "rId0"} :
            \/ m' = [m EXCEPT !.rrels = Append(@, RelOf(t, p, id))]
            \/ m' = [m EXCEPT !.rels = Append(@, RelOf(t, p, id))]
            \/ id = "" /\ \E i \in DOMAIN m.childs : m' = [m EXCEPT !.childs[i].rels = Append(@, RelOf(t, p, id))]
(* Resources: a texture or the thumbnail of an object.                                                    *)
AddRes == \E t \in {"3dtexture", "thumbnail"}, p \in RelPaths :
            \/ m' = [m EXCEPT !.imp = Append(@, Rel(t, p))]
            \/ \E i \in DOMAIN m.childs : m' = [m EXCEPT !.childs[i].imp = Append(@, Rel(t, p))]
AddThumb == m.thumb = "" /\ \E p \in RelPaths : m' = [m EXCEPT !.thumb = p]
Next == steps < MaxSteps /\ steps' = steps + 1 /\ (AddChild \/ AddAtt \/ AddRel \/ AddRes \/ AddThumb)

(* Writing is possible when it should be, and reading brings everything back.                             *)
Writes == Encodable(m) => LET P == Pack(m) IN
            /\ P.parts = PartsOf(m)
            /\ \A i \in DOMAIN Sources(m) : LET s == Sources(m)[i] IN \A k \in DOMAIN s.rels : \E r \in Range(P.rels) : r.src = s.src /\ <<r.type, r.target>> = Key(s.rels[k])
RoundTrip == Encodable(m) => Restores(Unpack(Pack(m)), m)
Emit == PrintT("CASE " \o ToJson([in |-> m, exp |-> Encodable(m)]))
=============================================================================
