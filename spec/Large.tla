------------------------------- MODULE Large -------------------------------
(* C04, C05 and the codecs. Large documents: repeating the first element of every list of one kind       *)
(* repeats its value and changes nothing else, so that a document of any size denotes what a small one   *)
(* does. The harness repeats (harness/rep.go) and takes the repetitions away from what the code makes of  *)
(* it; here the same is said of the denotation, and checked on every document that is used.              *)
EXTENDS Codec

RepFirst(s, n) == IF s = <<>> THEN s ELSE [i \in 1..n |-> s[1]] \o s

(* Where the lists of a kind are: <<elements that contain the list, name, element, parents>>.            *)
Site == [vertex |-> <<"core:vertices", "core:vertex", {"core:mesh"}>>, triangle |-> <<"core:triangles", "core:triangle", {"core:mesh"}>>,
         base |-> <<"core:basematerials", "core:base", {"core:resources"}>>, component |-> <<"core:components", "core:component", {"core:object"}>>,
         item |-> <<"core:build", "core:item", {"core:model"}>>, object |-> <<"core:resources", "core:object", {"core:model"}>>,
         metadata |-> <<"core:model", "core:metadata", {""}>>, group |-> <<"core:metadatagroup", "core:metadata", {"core:object", "core:item"}>>,
         color |-> <<"m:colorgroup", "m:color", {"*"}>>, coord |-> <<"m:texture2dgroup", "m:tex2coord", {"*"}>>,
         composite |-> <<"m:compositematerials", "m:composite", {"*"}>>, multi |-> <<"m:multiproperties", "m:multi", {"*"}>>,
         slice |-> <<"s:slicestack", "s:slice", {"*"}>>, sliceref |-> <<"s:slicestack", "s:sliceref", {"*"}>>,
         point |-> <<"s:vertices", "s:vertex", {"s:slice"}>>, polygon |-> <<"s:slice", "s:polygon", {"s:slicestack"}>>,
         segment |-> <<"s:polygon", "s:segment", {"s:slice"}>>, beam |-> <<"b:beams", "b:beam", {"b:beamlattice"}>>,
         set |-> <<"b:beamsets", "b:beamset", {"b:beamlattice"}>>, ref |-> <<"b:beamset", "b:ref", {"b:beamsets"}>>]
Merged == {"core:vertices", "core:triangles", "core:resources", "core:build", "b:beams", "b:beamsets", "core:metadatagroup"}
(* The elements that lead to lists, and their parents.                                                   *)
Anywhere == {"core:model", "core:mesh"}
Leads == [x \in {"core:resources", "core:build"} |-> {"core:model"}] @@ [x \in {"core:object"} |-> {"core:resources"}] @@ [x \in {"core:item"} |-> {"core:build"}]
         @@ [x \in {"core:mesh", "core:components"} |-> {"core:object"}] @@ [x \in {"s:slicestack"} |-> Anywhere \cup {"core:resources"}]
         @@ [x \in {"s:slice"} |-> {"s:slicestack"}] @@ [x \in {"s:polygon"} |-> {"s:slice"}] @@ [x \in {"b:beamlattice"} |-> Anywhere]
         @@ [x \in {"b:beams", "b:beamsets"} |-> {"b:beamlattice"}] @@ [x \in {"b:beamset"} |-> {"b:beamsets"}]
Key(n) == IF n.t = "T" THEN "" ELSE n.ns \o ":" \o n.n
FirstOf(cs, name) == LET s == {i \in DOMAIN cs : Key(cs[i]) = name} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j

Twice(c, name, n) == LET i == FirstOf(c.c, name) IN
  IF i = 0 THEN c ELSE [c EXCEPT !.c = SubSeq(@, 1, i) \o [k \in 1..n |-> @[i]] \o SubSeq(@, i + 1, Len(@))]
RECURSIVE RepIn(_, _, _)
RepIn(e, kind, n) ==
  LET site == Site[kind]
      inside == Key(e) \in site[3] \/ (site[3] = {"*"} /\ Key(e) \in Anywhere \cup {"core:resources"})
      full == {i \in DOMAIN e.c : Key(e.c[i]) = site[1] /\ FirstOf(e.c[i].c, site[2]) # 0}
      mine == IF ~inside THEN {} ELSE IF site[1] \in Merged THEN {i \in full : \A j \in full : i <= j} ELSE full
      self == IF kind = "metadata" THEN Twice(e, site[2], n) ELSE e
  IN IF kind = "metadata" THEN self
     ELSE [e EXCEPT !.c = [i \in DOMAIN @ |->
             LET x == @[i] y == IF i \in mine THEN Twice(x, site[2], n) ELSE x IN
             IF Key(x) \in DOMAIN Leads /\ Key(e) \in Leads[Key(x)] THEN RepIn(y, kind, n) ELSE y]]
RepTree(t, kind, n) == IF IsModel(t) THEN RepIn(t, kind, n) ELSE t

---------------------------------------------------------------------------
(* The same in a model.                                                                                  *)
RepAsset(a, kind, n) ==
  LET R(s) == RepFirst(s, n)
      Seg(p) == IF kind = "segment" THEN [p EXCEPT !.segs = R(@)] ELSE p
      Sl(s) == [s EXCEPT !.vs = IF kind = "point" THEN R(@) ELSE @, !.ps = IF kind = "polygon" THEN R(@) ELSE Map(@, Seg)]
      Set(s) == IF kind = "ref" THEN [s EXCEPT !.refs = R(@)] ELSE s
  IN CASE a.k = "base" /\ kind = "base" -> [a EXCEPT !.mats = R(@)]
       [] a.k = "color" /\ kind = "color" -> [a EXCEPT !.cs = R(@)]
       [] a.k = "texg" /\ kind = "coord" -> [a EXCEPT !.cs = R(@)]
       [] a.k = "comp" /\ kind = "composite" -> [a EXCEPT !.vals = R(@)]
       [] a.k = "multi" /\ kind = "multi" -> [a EXCEPT !.ms = R(@)]
       [] a.k = "stack" -> [a EXCEPT !.slices = IF kind = "slice" THEN R(@) ELSE Map(@, Sl), !.refs = IF kind = "sliceref" THEN R(@) ELSE @]
       [] a.k = "bl" -> [a EXCEPT !.beams = IF kind = "beam" THEN R(@) ELSE @, !.sets = IF kind = "set" THEN R(@) ELSE Map(@, Set)]
       [] OTHER -> a
RepAny(s, kind, n) == Map(s, LAMBDA a : RepAsset(a, kind, n))
RepRes(r, kind, n) ==
  LET R(s) == RepFirst(s, n)
      M(m) == [m EXCEPT !.vs = IF kind = "vertex" THEN R(@) ELSE @, !.ts = IF kind = "triangle" THEN R(@) ELSE @, !.any = RepAny(@, kind, n)]
      C(c) == IF kind = "component" THEN [c EXCEPT !.list = R(@)] ELSE c
      O(o) == [o EXCEPT !.mesh = Map(@, M), !.comps = Map(@, C), !.meta = IF kind = "group" THEN [@ EXCEPT !.md = R(@)] ELSE @]
  IN [r EXCEPT !.assets = RepAny(@, kind, n), !.objects = IF kind = "object" THEN R(@) ELSE Map(@, O)]
RepItem(i, kind, n) == IF kind = "group" THEN [i EXCEPT !.meta = [@ EXCEPT !.md = RepFirst(@, n)]] ELSE i
RepModel(m, kind, n) ==
  [m EXCEPT !.res = RepRes(@, kind, n), !.any = RepAny(@, kind, n), !.meta = IF kind = "metadata" THEN RepFirst(@, n) ELSE @,
            !.build = [@ EXCEPT !.items = IF kind = "item" THEN RepFirst(@, n) ELSE Map(@, LAMBDA i : RepItem(i, kind, n))]]
RepChild(m, kind, n) == [m EXCEPT !.res = RepRes(@, kind, n), !.any = RepAny(@, kind, n)]

RootGrows(t, kind) == \A n \in {1, 2} : RootVal(RepTree(t, kind, n)) = RepModel(RootVal(t), kind, n)
ChildGrows(t, kind) == \A n \in {1, 2} : ChildVal(RepTree(t, kind, n)) = RepChild(ChildVal(t), kind, n)
============================================================================
