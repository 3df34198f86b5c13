------------------------------ MODULE MC_Fill ------------------------------
(* C16. Every assignment of no, an empty, a valid and an invalid identifier to the elements of a model      *)
(* with two parts; what filling in the missing ones leaves to report.                                       *)
EXTENDS MC_Valid

Values == {"-", "", Id1, "zz"}
A1(k, v) == IF v = "-" THEN <<>> ELSE <<[k |-> k, uuid |-> v]>>
A2(k, v, path) == IF v = "-" THEN <<>> ELSE <<[k |-> k, uuid |-> v, path |-> path]>>

FillInit == m = [ProdBase EXCEPT !.childs = SubSeq(@, 1, 1)] /\ n = 0
FillNext ==
  /\ n < 7
  /\ n' = n + 1
  /\ \E v \in Values :
       m' = CASE n = 0 -> [m EXCEPT !.build.attrs = A1("pbuild", v)]
              [] n = 1 -> [m EXCEPT !.build.items[1].attrs = A2("pitem", v, "")]
              [] n = 2 -> [m EXCEPT !.build.items[2].attrs = A2("pitem", v, C)]
              [] n = 3 -> [m EXCEPT !.res.objects[1].attrs = A1("pobj", v)]
              [] n = 4 -> [m EXCEPT !.res.objects[2].comps[1].list[2].attrs = A2("pcomp", v, C)]
              [] n = 5 -> [m EXCEPT !.childs[1].res.objects[2].attrs = A1("pobj", v)]
              [] n = 6 -> [m EXCEPT !.childs[1].res.objects[2].comps[1].list[1].attrs = A2("pcomp", v, "")]

IdErrs(s) == SelectSeq(s, LAMBDA e : e.c \in {"UUID", "missing:UUID"})
Filled == LET left == IdErrs(Errs("written", Filling(m, Id1)))
              was == IdErrs(Errs("written", m)) IN
  /\ \A i \in DOMAIN left : left[i].c = "UUID" /\ \E k \in DOMAIN was : was[k] = left[i]
  /\ Filling(Filling(m, Id1), Id2) = Filling(m, Id1)
EmitFill == IF n = 7 THEN PrintT("CASE " \o ToJson(m)) ELSE TRUE
=============================================================================
