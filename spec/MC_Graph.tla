------------------------------ MODULE MC_Graph ------------------------------
(* C17. Every graph of components over two objects of the root and one or two of a child part: objects with *)
(* a mesh, and with up to Wide references to objects that exist, that do not, in parts that exist and not.  *)
EXTENDS MC_Valid

CONSTANTS Wide, Two     \* how many references the first object can have, and the others

Targets == {<<1, "">>, <<2, "">>, <<3, "">>, <<1, C>>, <<2, C>>, <<9, C>>, <<2, Default>>, <<1, "/none.model">>, <<0, "">>}
Lists(k) == UNION {[1..i -> Targets] : i \in 0..k}
Node(id, list) == [CompObj(id, [i \in DOMAIN list |-> Comp(list[i][1], list[i][2])]) EXCEPT !.attrs = SObj(8, "fullres")]
Nodes(id, k) == {Node(id, l) : l \in Lists(k)} \cup {[Plain(id) EXCEPT !.attrs = SObj(8, "fullres")]}

GraphInit == /\ n = 0
             /\ m = Model(<<Ext(URL.s, "s", FALSE)>>, Res(<<StackA(8, 0, <<1>>)>>, <<Plain(1), Plain(2)>>), <<[Item(1, "") EXCEPT !.tr = <<1, 0, 1, 0, 1, 0, 0, 0, 1, 0, 0, 0>>], Item(1, C)>>,
                          <<Child(C, Res(<<StackA(8, 0, <<1>>)>>, <<Plain(1), Plain(2)>>))>>)
GraphNext ==
  /\ n < 3
  /\ n' = n + 1
  /\ CASE n = 0 -> \E o \in Nodes(1, Wide) : m' = [m EXCEPT !.res.objects[1] = o]
       [] n = 1 -> \E o \in Nodes(2, Two) : m' = [m EXCEPT !.res.objects[2] = o]
       [] n = 2 -> \E o \in Nodes(1, Two) : m' = [m EXCEPT !.childs[1].res.objects[1] = o]

Graph(s) == SelectSeq(s, LAMBDA e : About("C17", e))
(* References that lead somewhere else are never a violation, whatever cycles they make.                    *)
Sound ==
  LET refs(q, o) == LET path == IF q = 0 THEN RootPath(m) ELSE C
                        r == IF q = 0 THEN m.res ELSE m.childs[1].res
                        cs == Components(r.objects[o]) IN
        \A j \in DOMAIN cs : LET t == CompPath(cs[j], path) IN
          cs[j].oid \in {1, 2} /\ t \in {RootPath(m), C} /\ ~(t = path /\ cs[j].oid = r.objects[o].id)
  IN ((\A q \in 0..1, o \in 1..2 : refs(q, o)) <=> (Graph(Errs("written", m)) = <<>>))
EmitGraph == IF n = 3 THEN PrintT("CASE " \o ToJson([m |-> m, exp |-> Errs("written", m)])) ELSE TRUE
=============================================================================
