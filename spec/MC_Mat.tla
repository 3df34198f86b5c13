------------------------------ MODULE MC_Mat ------------------------------
(* The product is bilinear, so pairs of matrices that differ from simple ones in one entry decide every  *)
(* coefficient of it. All pairs, as a graph: the matrix a is fixed by Init, b by the only step.          *)
EXTENDS Geometry, Json
CONSTANTS Values
VARIABLES a, b

With(m, i, v) == [m EXCEPT ![i] = v]
Diag == <<2, 0, 0, 0,  0, 3, 0, 0,  0, 0, 5, 0,  7, 11, 13, 1>>
Rot == <<0, 1, 0, 0,  0, 0, 1, 0,  1, 0, 0, 0,  -4, 6, 9, 1>>
Mats == {Identity, Diag, Rot, Absent} \cup {With(Identity, i, v) : i \in 1..16, v \in Values}
        \cup {With(Rot, i, v) : i \in 1..16, v \in Values} \cup {With(Absent, i, v) : i \in 1..16, v \in Values}

Init == a \in Mats /\ b = <<>>
Next == b = <<>> /\ b' \in Mats /\ UNCHANGED a

IsAffine(m) == m[4] = 0 /\ m[8] = 0 /\ m[12] = 0 /\ m[16] = 1
P == <<3, -5, 8>>
Box == <<<<-1, 2, -7>>, <<4, 3, 6>>>>
Compose == (b # <<>> /\ IsAffine(a) /\ IsAffine(b)) => Apply(Mul(a, b), P) = Apply(a, Apply(b, P))
Unit == Mul(a, Identity) = a /\ Mul(Identity, a) = a
Shifted == IsAffine(a) => Apply(Translate(a, P), P) = [k \in 1..3 |-> Apply(a, P)[k] + P[k]]
Inside == (b # <<>> /\ IsAffine(a)) => \A p \in Corners(Box) : LET q == Apply(a, p) x == MulBox(a, Box) IN
             \A k \in 1..3 : x[1][k] <= q[k] /\ q[k] <= x[2][k]
Expect(x, y, p, bx) ==
  [ab |-> Mul(x, y), ida |-> x, aid |-> x, tr |-> Translate(x, p), p3 |-> Apply(x, p), p2 |-> ApplyPlane(x, p),
   box |-> IF x[16] # 0 \/ x = Absent THEN MulBox(x, bx) ELSE <<>>,
   has |-> x \notin {Absent, Identity}, hasc |-> x \notin {Absent, Identity}]
Emit == (b # <<>>) => PrintT("CASE " \o ToJson([in |-> [a |-> a, b |-> b, p |-> P, box |-> Box[1] \o Box[2]], exp |-> Expect(a, b, P, Box)]))
=============================================================================
