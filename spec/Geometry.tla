----------------------------- MODULE Geometry -----------------------------
(* C18, C25. Transforms are 4x4 matrices in row-major order (16 integers), points are row vectors.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

E(m, r, k) == m[4 * (r - 1) + k]                                                  \* rows and columns from 1
Mat(f(_, _)) == [i \in 1..16 |-> f(((i - 1) \div 4) + 1, ((i - 1) % 4) + 1)]
Identity == <<1, 0, 0, 0,  0, 1, 0, 0,  0, 0, 1, 0,  0, 0, 0, 1>>
Absent == [i \in 1..16 |-> 0]                                                     \* no transform
Affine(t) == <<t[1], t[2], t[3], 0, t[4], t[5], t[6], 0, t[7], t[8], t[9], 0, t[10], t[11], t[12], 1>>

(* The product applies b first and then a: p * (a . b) = (p * b) * a.                                    *)
Mul(a, b) == LET f(r, k) == E(b, r, 1) * E(a, 1, k) + E(b, r, 2) * E(a, 2, k) + E(b, r, 3) * E(a, 3, k) + E(b, r, 4) * E(a, 4, k)
             IN Mat(f)
Apply(m, p) == [k \in 1..3 |-> p[1] * E(m, 1, k) + p[2] * E(m, 2, k) + p[3] * E(m, 3, k) + E(m, 4, k)]
ApplyPlane(m, p) == [k \in 1..2 |-> Apply(m, <<p[1], p[2], 0>>)[k]]
(* Translation adds its offset after the transform.                                                      *)
Translate(m, v) == [i \in 1..16 |-> IF i \in 13..15 THEN m[i] + v[i - 12] ELSE m[i]]

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
(* A box is a pair of points; the box of a non-empty set of points is the smallest one that contains it. *)
BoxOf(P) == <<[k \in 1..3 |-> Min({p[k] : p \in P})], [k \in 1..3 |-> Max({p[k] : p \in P})]>>
Corners(b) == {<<b[i][1], b[j][2], b[k][3]>> : i \in 1..2, j \in 1..2, k \in 1..2}
MulBox(m, b) == IF m = Absent THEN b ELSE BoxOf({Apply(m, p) : p \in Corners(b)})
Zero == <<0, 0, 0>>
ZeroBox == <<Zero, Zero>>

---------------------------------------------------------------------------
(* Text: twelve entries in units of 1/64, rounded to thousandths; Tie tells that rounding is ambiguous.  *)
Abs(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE 1
Thousandths(n) == Sign(n) * ((Abs(n) * 1000 + 32) \div 64)
Tie(n) == (Abs(n) * 1000) % 64 = 32
ParsedText(t) == LET r(i) == Thousandths(t[i]) IN
  <<r(1), r(2), r(3), 0, r(4), r(5), r(6), 0, r(7), r(8), r(9), 0, r(10), r(11), r(12), 1000>>

---------------------------------------------------------------------------
(* Boxes of models. A model has parts (the first is the root) with objects: a mesh with points, or       *)
(* components; and build items. A reference names a part, or else stays in its own (a build item: the    *)
(* root). Trans is a sequence of 12 integers, or empty when there is none.                               *)
Tr(t) == IF t = <<>> THEN Absent ELSE IF Len(t) = 16 THEN t ELSE Affine(t)
PartIdx(c, path) ==
  LET names(i) == IF i = 1 THEN {"", IF c.rootpath = "" THEN "/3D/3dmodel.model" ELSE c.rootpath} ELSE {c.parts[i].path}
      S == {i \in DOMAIN c.parts : path \in names(i)} IN
  IF S = {} THEN 0 ELSE Min(S)
ObjIdx(c, pi, id) == IF pi = 0 THEN 0 ELSE
  LET S == {j \in DOMAIN c.parts[pi].objs : c.parts[pi].objs[j].id = id} IN IF S = {} THEN 0 ELSE Min(S)

(* The points that decide the box of an object: the box corners of its geometry, moved to where the      *)
(* reference puts them. A reference back to an object that is being processed adds nothing.              *)
RECURSIVE ObjBox(_, _, _, _)
ObjBox(c, pi, oi, busy) ==   \* a set with at most one box
  LET o == c.parts[pi].objs[oi] IN
  IF o.mesh THEN (IF o.vs = <<>> THEN {} ELSE {BoxOf({o.vs[k] : k \in DOMAIN o.vs})})
  ELSE IF <<pi, oi>> \in busy THEN {}
  ELSE LET sub(k) == LET r == o.comps[k]
                         qi == IF r.path = "" THEN pi ELSE PartIdx(c, r.path)
                         oj == ObjIdx(c, qi, r.oid) IN
                     IF oj = 0 THEN {}
                     ELSE {MulBox(Tr(r.tr), b) : b \in ObjBox(c, qi, oj, busy \cup {<<pi, oi>>})}
           pts == UNION {UNION {{b[1], b[2]} : b \in sub(k)} : k \in DOMAIN o.comps} IN
       IF pts = {} THEN {} ELSE {BoxOf(pts)}

ModelBox(c) ==
  LET sub(k) == LET r == c.items[k]
                    qi == PartIdx(c, r.path)
                    oj == ObjIdx(c, qi, r.oid) IN
                IF oj = 0 THEN {} ELSE {MulBox(Tr(r.tr), b) : b \in ObjBox(c, qi, oj, {})}
      pts == UNION {UNION {{b[1], b[2]} : b \in sub(k)} : k \in DOMAIN c.items} IN
  IF pts = {} THEN ZeroBox ELSE BoxOf(pts)

(* Whether a chain of components comes back to an object it has been through; then only termination and  *)
(* not the box is determined.                                                                            *)
RECURSIVE Loops(_, _, _, _)
Loops(c, pi, oi, busy) ==
  LET o == c.parts[pi].objs[oi] IN
  /\ ~o.mesh
  /\ \/ <<pi, oi>> \in busy
     \/ \E k \in DOMAIN o.comps :
          LET r == o.comps[k]
              qi == IF r.path = "" THEN pi ELSE PartIdx(c, r.path)
              oj == ObjIdx(c, qi, r.oid) IN
          oj # 0 /\ Loops(c, qi, oj, busy \cup {<<pi, oi>>})
Cyclic(c) == \E k \in DOMAIN c.items :
  LET qi == PartIdx(c, c.items[k].path) oj == ObjIdx(c, qi, c.items[k].oid) IN oj # 0 /\ Loops(c, qi, oj, {})

MeshBoxes(c) ==
  LET of(o) == IF ~o.mesh THEN <<>> ELSE IF o.vs = <<>> THEN ZeroBox ELSE BoxOf({o.vs[k] : k \in DOMAIN o.vs})
      part(i) == [k \in DOMAIN c.parts[i].objs |-> of(c.parts[i].objs[k])]
      cat[i \in 0..Len(c.parts)] == IF i = 0 THEN <<>> ELSE cat[i - 1] \o part(i)
  IN cat[Len(c.parts)]
===========================================================================
