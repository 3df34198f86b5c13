----------------------------- MODULE MC_Unpack -----------------------------
(* All small packages: a few parts and every sequence of relationships between them.                      *)
EXTENDS Package, Json
CONSTANTS Targets, Sources0, Types, MaxRels, Pool
VARIABLES pkg

Data(n) == "d:" \o n
MkPart(n, ct) == [name |-> n, ct |-> ct, data |-> Data(n)]
Root == "/3D/3dmodel.model"
Pools == [plain |-> <<MkPart("/3D/3dmodel.model", "model"), MkPart("/3D/c.model", "model"), MkPart("/c.model", "model"), MkPart("/a.png", "image/png"), MkPart("/3D/a.png", "image/jpeg"), MkPart("/3D/k%5Bk.png", "text/plain")>>,
          mixed |-> <<MkPart("/3D/A.PNG", "text/plain"), MkPart("/3D/C.model", "model"), MkPart("/3D/3dmodel.model", "model")>>,
          norootpart |-> <<MkPart("/3D/c.model", "model"), MkPart("/a.png", "image/png")>>]
IsModel(P, r) == LET k == Found(P, r) IN IF k = 0 THEN TRUE ELSE P.parts[k].ct = "model"

Init ==
  \/ pkg = [parts |-> Pools[Pool], rels |-> <<>>]
  \/ pkg = [parts |-> Pools[Pool], rels |-> <<[src |-> "/", id |-> "r0", type |-> Model, target |-> "/3D/3dmodel.model"]>>]
  \/ pkg = [parts |-> Pools[Pool], rels |-> <<[src |-> "/", id |-> "r0", type |-> Model, target |-> "3D/3DModel.model"]>>]

Next ==
  \E src \in Sources0, type \in Types, target \in Targets :
    LET r == [src |-> src, id |-> "x" \o ToString(Len(pkg.rels)), type |-> type, target |-> target] IN
    /\ Len(pkg.rels) <= MaxRels
    /\ pkg.rels # <<>>
    /\ src = "/" => type # Model
    /\ type = Model => IsModel(pkg, r)
    /\ pkg' = [pkg EXCEPT !.rels = Append(@, r)]

(* Reading needs nothing else than what is related, and attachments and children are never the same part. *)
Consistent ==
  LET d == Unpack(pkg) IN
  d.err = "" =>
    /\ \A a \in d.atts : a.path # d.path /\ \A x \in d.childs : x.path # a.path
    /\ \A x \in d.childs : x.path # d.path
    /\ d.nchilds = Cardinality(d.childs) /\ d.natts = Cardinality(d.atts)
Emit == PrintT("CASE " \o ToJson([in |-> pkg, exp |-> Unpack(pkg)]))
=============================================================================
