------------------------------ MODULE Tr_Geo ------------------------------
EXTENDS Geometry, Walk
MatExpect(c) ==
  LET bx == <<SubSeq(c.box, 1, 3), SubSeq(c.box, 4, 6)>>
      x == IF Len(c.a) = 12 THEN Affine(c.a) ELSE c.a
      y == IF Len(c.b) = 12 THEN Affine(c.b) ELSE c.b IN
  [ab |-> Mul(x, y), ida |-> x, aid |-> x, tr |-> Translate(x, c.p), p3 |-> Apply(x, c.p), p2 |-> ApplyPlane(x, c.p),
   box |-> MulBox(x, bx), has |-> x \notin {Absent, Identity}, hasc |-> x \notin {Absent, Identity}]
TextOK(c, out) ==
  /\ out.ok
  /\ \A i \in 1..16 : i % 4 = 0 => out.m[i] = (IF i = 16 THEN 1000 ELSE 0)
  /\ \A i \in 1..12 : LET w == out.m[4 * ((i - 1) \div 3) + ((i - 1) % 3) + 1] t == Thousandths(c.m[i]) IN
        \/ w = t
        \/ Tie(c.m[i]) /\ w = t - Sign(c.m[i])
JudgeGeo(c) ==
  LET k == c.case IN
  CASE k.op = "mat" -> LET e == MatExpect(k) IN [ok |-> e = c.out, exp |-> e]
    [] k.op = "parsemat" /\ "m" \in DOMAIN k -> [ok |-> TextOK(k, c.out), exp |-> [ok |-> TRUE, m |-> ParsedText(k.m)]]
    [] k.op = "parsemat" -> LET e == IF k.good THEN [ok |-> TRUE, m |-> ParsedText(k.vals)] ELSE [ok |-> FALSE, m |-> <<>>] IN
                            [ok |-> e = c.out, exp |-> e]
    [] k.op = "bbox" -> LET e == [box |-> IF Cyclic(k) THEN c.out.box ELSE ModelBox(k), same |-> TRUE, meshes |-> MeshBoxes(k)] IN
                          [ok |-> e = c.out, exp |-> e]
=============================================================================
