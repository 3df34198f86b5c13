------------------------------ MODULE Tr_Builder ------------------------------
(* Each line is a complete history of additions; positions from 1 in the specification, 0 in the code.    *)
EXTENDS Builder, Walk

Conn(c, k) == IF "conn" \in DOMAIN c.adds[k] THEN c.adds[k].conn ELSE c.cur[k]
RECURSIVE Steps(_, _, _, _)
Steps(c, o, k, s) ==
  IF k > Len(c.adds) THEN [ok |-> TRUE]
  ELSE LET p == c.adds[k].p + 1
           i == o[k].i + 1
           t == After(s, p, Conn(c, k), i) IN
       IF i \in Allowed(s, p, Conn(c, k), c.rel) /\ Len(o[k].vs) = Len(t.verts) /\
          \A n \in DOMAIN t.verts : o[k].vs[n] >= 0 /\ c.rel[o[k].vs[n] + 1][t.verts[n]] = "eq"
       THEN Steps(c, o, k + 1, t)
       ELSE [ok |-> FALSE, exp |-> [step |-> k, allowed |-> {x - 1 : x \in Allowed(s, p, Conn(c, k), c.rel)}, verts |-> [n \in DOMAIN s.verts |-> s.verts[n] - 1]]]

(* The pointwise form is the same where it applies.                                                        *)
Apart(c) == \A a, b \in DOMAIN c.rel : c.rel[a][b] # "near"
AsPoints(c, o) ==
  LET n == Len(c.adds)
      conn == [k \in 1..n |-> Conn(c, k)]
      eq(a, b) == c.rel[a][b] = "eq"
      prior(k) == {j \in 1..(k - 1) : conn[j] /\ eq(c.adds[j].p + 1, c.adds[k].p + 1)}
      first == [k \in 1..n |-> IF prior(k) = {} THEN k ELSE CHOOSE j \in prior(k) : \A i \in prior(k) : j <= i]
      vs == [v \in DOMAIN o[n].vs |-> o[n].vs[v] + 1] IN
  IF \E v \in DOMAIN vs : vs[v] = 0 THEN FALSE
  ELSE /\ Pointwise([k \in 1..n |-> c.adds[k].p + 1], conn, [k \in 1..n |-> o[k].i + 1], [k \in 1..n |-> Len(o[k].vs)], Len(c.pre), first, vs, eq)
       /\ \A k \in 1..n : \A v \in DOMAIN o[k].vs : o[k].vs[v] = o[n].vs[v]
       /\ \A v \in DOMAIN c.pre : eq(vs[v], c.pre[v] + 1)

(* Very many positions, all far from each other, in passes over all of them.                               *)
Large(c, o) ==
  LET n == c.n  P == Len(c.passes)
      at(k) == LET q == ((k - 1) % n) + 1 IN IF c.passes[((k - 1) \div n) + 1].down THEN n + 1 - q ELSE q
      cn(k) == c.passes[((k - 1) \div n) + 1].conn
      merging == {p \in 1..P : c.passes[p].conn}
      start == IF merging = {} THEN 1 ELSE CHOOSE p \in merging : \A q \in merging : p <= q
      of(k) == IF (k - 1) \div n + 1 <= start THEN k
               ELSE (start - 1) * n + (IF c.passes[start].down THEN n + 1 - at(k) ELSE at(k))
      eq(a, b) == a = b
      one == [i \in 1..Len(o.is) |-> o.is[i] + 1]
      vs == [v \in DOMAIN o.vs |-> o.vs[v] + 1] IN
  /\ Len(o.is) = n * P /\ Len(o.ns) = n * P
  /\ Pointwise([k \in 1..(n * P) |-> at(k)], [k \in 1..(n * P) |-> cn(k)], one, o.ns, 0, [k \in 1..(n * P) |-> of(k)], vs, eq)

JudgeBuilder(c) ==
  IF c.case.op = "mbbig" THEN [ok |-> Large(c.case, c.out), exp |-> "each position one vertex"]
  ELSE LET r == Steps(c.case, c.out.steps, 1, Fresh([k \in DOMAIN c.case.pre |-> c.case.pre[k] + 1])) IN
       IF Apart(c.case) /\ Len(c.case.adds) > 0 THEN (IF Assert(r.ok = AsPoints(c.case, c.out.steps), <<"pointwise", c.case>>) THEN r ELSE r) ELSE r
===============================================================================
