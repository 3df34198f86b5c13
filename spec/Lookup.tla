------------------------------- MODULE Lookup -------------------------------
(* C22. A package is a sequence of parts (the first is the root), each with the ids of its assets and    *)
(* of its objects. A resource is named "part#a0", "part#o2", ... Queries are a part and an id.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Ids(p) == {p.assets[i] : i \in DOMAIN p.assets} \cup {p.objects[i] : i \in DOMAIN p.objects}
Unused(p) == CHOOSE n \in 1..(Cardinality(Ids(p)) + 1) : n \notin Ids(p) /\ \A k \in 1..(n - 1) : k \in Ids(p)

Names(c, i) == IF i = 1 THEN {"", IF c.rootpath = "" THEN "/3D/3dmodel.model" ELSE c.rootpath} ELSE {c.parts[i].path}
Part(c, path) == {i \in DOMAIN c.parts : path \in Names(c, i)}

NameA(p, i) == p.path \o "#a" \o ToString(i - 1)
NameO(p, i) == p.path \o "#o" \o ToString(i - 1)

(* Acceptable answers of a lookup.                                                                       *)
Answers(p, ids, id, name(_, _)) == LET S == {i \in DOMAIN ids : ids[i] = id} IN IF S = {} THEN {"-"} ELSE {name(p, i) : i \in S}
FindA(c, q) == LET P == Part(c, q.path) IN IF P = {} THEN {"-"} ELSE UNION {Answers(c.parts[i], c.parts[i].assets, q.id, NameA) : i \in P}
FindO(c, q) == LET P == Part(c, q.path) IN IF P = {} THEN {"-"} ELSE UNION {Answers(c.parts[i], c.parts[i].objects, q.id, NameO) : i \in P}

(* Traversal: children in lexical order (c.order lists the positions of the parts), then the root.       *)
RECURSIVE Visits(_, _, _)
Visits(c, order, objs) ==
  IF order = <<>> THEN <<>>
  ELSE LET p == c.parts[order[1]]
           tag == IF order[1] = 1 THEN ">" ELSE p.path \o ">"
           seq == IF objs THEN [i \in DOMAIN p.objects |-> tag \o NameO(p, i)] ELSE [i \in DOMAIN p.assets |-> tag \o NameA(p, i)]
       IN seq \o Visits(c, Tail(order), objs)
Walked(c, stop, objs) ==
  LET all == Visits(c, c.order, objs) IN
  IF stop > 0 /\ stop <= Len(all) THEN [seen |-> SubSeq(all, 1, stop), err |-> TRUE, nil |-> FALSE]
  ELSE [seen |-> all, err |-> FALSE, nil |-> TRUE]

OK(c, o) ==
  /\ o.unused = [i \in DOMAIN c.parts |-> Unused(c.parts[i])]
  /\ \A k \in DOMAIN c.find : /\ o.find[k].a \in FindA(c, c.find[k])
                              /\ o.find[k].o \in FindO(c, c.find[k])
                              /\ o.find[k].r = (Part(c, c.find[k].path) # {})
  /\ o.walks = [k \in DOMAIN c.stops |-> [a |-> Walked(c, c.stops[k], FALSE), o |-> Walked(c, c.stops[k], TRUE)]]

Expected(c) ==
  [unused |-> [i \in DOMAIN c.parts |-> Unused(c.parts[i])],
   find |-> [k \in DOMAIN c.find |-> [a |-> FindA(c, c.find[k]), o |-> FindO(c, c.find[k])]],
   walks |-> [k \in DOMAIN c.stops |-> [a |-> Walked(c, c.stops[k], FALSE), o |-> Walked(c, c.stops[k], TRUE)]]]
============================================================================
