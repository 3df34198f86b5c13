------------------------------- MODULE Tr_Stl -------------------------------
(* Each line is a model, some files, and what importing each of them into that model did.                 *)
EXTENDS Stl, Walk

After1(c, o, r) ==
  LET b == o.before  a == o.after  n == Len(b.res.objects)
      Number(k) == IF k \in DOMAIN c.floats THEN c.floats[k] ELSE 0
      obj == a.res.objects[n + 1]
      vs == [v \in DOMAIN o.vs |-> [k \in 1..3 |-> Number(o.vs[v][k])]]
      ts == [t \in DOMAIN o.ts |-> [k \in 1..3 |-> o.ts[t][k] + 1]] IN
  /\ Len(a.res.objects) = n + 1
  /\ \A v \in DOMAIN vs : 0 \notin {vs[v][k] : k \in 1..3}
  /\ IsMesh(r.corners, vs, ts, c.near)
  /\ obj = Plain @@ [id |-> obj.id, mesh |-> <<>>]
  /\ o.bare
  /\ obj.id # "0" /\ obj.id \notin Ids(b)
  /\ a = [b EXCEPT !.res.objects = Append(@, obj),
                   !.build.items = Append(@, [oid |-> obj.id, tr |-> <<>>, pn |-> "", meta |-> [md |-> <<>>, attrs |-> <<>>], attrs |-> <<>>])]

FileOK(c, f, o, r) ==
  IF o.failed THEN r.verdict # "good" /\ o.after = o.before
  ELSE r.verdict # "bad" /\ After1(c, o, r)

JudgeBig(k, o) ==
  LET by == IF k.apart THEN 3 ELSE 1
      corner(f, j) == by * (f - 1) + j
      near == [a \in 1..6 |-> [b \in 1..6 |-> IF a = b THEN "eq" ELSE "far"]]
      point(i) == <<i, i, i>>
      some == IF k.apart THEN <<1, 2, 3, 4, 5, 6>> ELSE <<1, 2, 3, 2, 3, 4, 3, 4, 5>>
      vs == [v \in DOMAIN o.vs |-> o.vs[v] + 1]
      ts == [t \in DOMAIN o.ts |-> [j \in 1..3 |-> o.ts[t][j] + 1]]
      m == Len(some) \div 3
      last == corner(m, 3) IN
  \* the closed form is a mesh of such corners, on the first few
  /\ Assert(LET v0 == [v \in 1..last |-> v] t0 == [t \in 1..m |-> [j \in 1..3 |-> corner(t, j)]] IN
            InOrder(m, corner, v0, t0) /\ IsMesh([p \in 1..Len(some) |-> point(some[p])], [v \in 1..last |-> point(v)], t0, near), "InOrder")
  /\ ~o.failed /\ o.objects = 1 /\ InOrder(k.n, corner, vs, ts)

JudgeStl(c) ==
  IF "apart" \in DOMAIN c.case THEN [ok |-> JudgeBig(c.case, c.out), exp |-> "every facet"] ELSE
  LET k == c.case  o == c.out.files
      rs == TLCEval([i \in DOMAIN k.files |-> ReadFailing(k.files[i].bytes, k.files[i].fails, k.words, k.floats)])
      bad == {i \in DOMAIN k.files : ~FileOK(k, k.files[i], o[i], rs[i])} IN
  IF bad # {} THEN [ok |-> FALSE, exp |-> [file |-> CHOOSE i \in bad : \A j \in bad : i <= j, reads |-> LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN rs[i]]]
  ELSE IF k.twins /\ \E i, j \in DOMAIN o : o[i].vs # o[j].vs \/ o[i].ts # o[j].ts THEN [ok |-> FALSE, exp |-> [twins |-> "the same mesh"]]
  ELSE [ok |-> TRUE]
=============================================================================
