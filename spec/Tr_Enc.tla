------------------------------- MODULE Tr_Enc -------------------------------
(* Judges encodings: the documents written (out.parts) must denote the model (out.in), as read by the    *)
(* specification, and the library must read them as the same (out.dec, out.marshal).                     *)
EXTENDS Norm, Large, Walk

Default == "/3D/3dmodel.model"
Problems(o) ==
  LET m == o.in
      root == IF m.path = "" THEN Default ELSE m.path
      part(path) == SelectSeq(o.parts, LAMBDA p : p.path = path)
      want == Seen(m)
      childs == [i \in DOMAIN m.childs |-> SeenChild(m.childs[i], m)]
      tree == part(root)[1].tree
      value == Seen(RootVal(tree))
      marshal == o.marshal[1]
      diff(v) == {k \in DOMAIN want : v[k] # want[k]}
  IN IF o.err # "" THEN {"error: " \o o.err}
     ELSE IF o.bad # <<>> THEN {"ill-formed: " \o o.bad[1]}
     ELSE IF Len(part(root)) # 1 \/ Len(o.parts) # 1 + Len(m.childs) \/ \E i \in DOMAIN m.childs : Len(part(m.childs[i].path)) # 1 THEN {"parts"}
     ELSE {"written " \o k : k \in diff(value)} \cup {"errors written" : e \in RootErrs(tree)}
          \cup {"read " \o k : k \in diff(Seen(o.dec))} \cup (IF o.errs = <<>> THEN {} ELSE {"errors read"})
          \cup (IF o.dec.path = root THEN {} ELSE {"path"})
          \cup UNION {LET t == part(m.childs[i].path)[1].tree
                          v == ChildVal(t) IN
                      {"written child" : x \in {1} \ (IF SeenChild([path |-> m.childs[i].path, res |-> v.res, any |-> v.any], RootVal(t)) = childs[i] THEN {1} ELSE {})}
                      \cup {"errors written" : e \in ChildErrs(t)} : i \in DOMAIN m.childs}
          \cup (IF [i \in DOMAIN o.dec.childs |-> SeenChild(o.dec.childs[i], o.dec)] = childs THEN {} ELSE {"read childs"})
          \cup (IF o.marshal = <<>> THEN {} ELSE
                {"marshalled " \o k : k \in diff(Seen(RootVal(marshal)))} \cup {"unmarshalled " \o k : k \in diff(Seen(o.marshal[2]))}
                \cup (IF o.marshal[3] = <<>> THEN {} ELSE {"errors unmarshalled"}))

JudgeEnc(c) ==
  LET p == Problems(c.out)
      m == c.out.in
      grows == "rep" \notin DOMAIN c.case \/ \A n \in {1, 2} :
                 /\ Seen(RepModel(m, c.case.rep.kind, n)) = RepModel(Seen(m), c.case.rep.kind, n)
                 /\ \A i \in DOMAIN m.childs : SeenChild(RepChild(m.childs[i], c.case.rep.kind, n), m) = RepChild(SeenChild(m.childs[i], m), c.case.rep.kind, n)
  IN IF ~Assert(grows, "repetitions change more than their lists") THEN [ok |-> FALSE]
  ELSE IF p = {} THEN [ok |-> TRUE]
  ELSE [ok |-> FALSE, exp |-> [problems |-> p, model |-> Seen(c.out.in), childs |-> [i \in DOMAIN c.out.in.childs |-> SeenChild(c.out.in.childs[i], c.out.in)]]]
=============================================================================
