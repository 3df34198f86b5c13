-------------------------------- MODULE Norm --------------------------------
(* C01-C03. What a model becomes when it is written and read: Norm gives the model that the written      *)
(* document must denote. Numbers have already been rounded to the decimals written.                      *)
EXTENDS Codec

(* Namespace declarations that the writer adds are no content.                                           *)
NoDecls(as) == SelectSeq(as, LAMBDA a : a.ns # "xmlns")
RECURSIVE TreeNorm(_)
TreeNorm(n) == IF n.t = "T" THEN n ELSE [n EXCEPT !.a = NoDecls(@), !.c = Map(@, TreeNorm)]

VanishingGroup(g) == CASE g.k = "u" -> g.ns = "xmlns" \/ g.a = <<>>
                       [] g.k \in {"pbuild", "pobj"} -> g.uuid = ""
                       [] g.k \in {"pitem", "pcomp"} -> g.uuid = "" /\ g.path = ""
                       [] OTHER -> FALSE
AttrNorm(gs) == SelectSeq(gs, LAMBDA g : ~VanishingGroup(g))

(* A name prefixed with what the written model does not declare is a name without prefix.                *)
MetaNorm(ms, pre) ==
  Map(ms, LAMBDA m : IF m.ns # "" /\ m.ns \notin pre THEN [m EXCEPT !.ns = "", !.n = m.ns \o ":" \o m.n] ELSE m)
(* The attributes of an empty group are not written.                                                     *)
GroupNorm(g, pre) == [md |-> MetaNorm(g.md, pre), attrs |-> IF g.md = <<>> THEN <<>> ELSE AttrNorm(g.attrs)]

SegmentNorm(s) == IF s.pid = "0" THEN [s EXCEPT !.p1 = "0", !.p2 = "0"] ELSE s
StackNorm(s) == [s EXCEPT !.slices = Map(@, LAMBDA l : [l EXCEPT !.ps = Map(@, LAMBDA p : [p EXCEPT !.segs = Map(@, SegmentNorm)])])]
BeamNorm(b, rad) ==
  LET r1 == IF b.r[1] = "0" THEN rad ELSE b.r[1]
  IN [b EXCEPT !.r = <<r1, IF b.r[2] = "0" THEN r1 ELSE b.r[2]>>]
AssetNorm(a) ==
  CASE a.k = "base" -> [a EXCEPT !.attrs = AttrNorm(@), !.mats = Map(@, LAMBDA b : [b EXCEPT !.attrs = AttrNorm(@)])]
    [] a.k = "unk" -> [a EXCEPT !.tree = TreeNorm(@)]
    [] a.k = "stack" -> StackNorm(a)
    [] OTHER -> a
AnyNorm(x) ==
  CASE x.k = "tok" -> [x EXCEPT !.tree = TreeNorm(@)]
    [] x.k = "bl" -> [x EXCEPT !.beams = Map(@, LAMBDA b : BeamNorm(b, x.rad))]
    [] OTHER -> AssetNorm(x)

(* A triangle without property gets that of the object.                                                  *)
TriangleNorm(t, o) ==
  [t EXCEPT !.pid = IF @ = "0" THEN o.pid ELSE @, !.p = IF t.pid = "0" THEN <<o.pidx, o.pidx, o.pidx>> ELSE @, !.attrs = AttrNorm(@)]
MeshNorm(m, o) ==
  [attrs |-> AttrNorm(m.attrs), vattrs |-> AttrNorm(m.vattrs), tattrs |-> AttrNorm(m.tattrs), vs |-> m.vs,
   ts |-> Map(m.ts, LAMBDA t : TriangleNorm(t, o)), any |-> Map(m.any, AnyNorm)]
(* Only an object with a mesh has a property, and it has no components.                                  *)
ObjectNorm(o, pre) ==
  [o EXCEPT !.meta = GroupNorm(@, pre), !.attrs = AttrNorm(@),
            !.pid = IF o.mesh = <<>> THEN "0" ELSE @, !.pidx = IF o.mesh = <<>> THEN "0" ELSE @,
            !.mesh = Map(@, LAMBDA m : MeshNorm(m, o)),
            !.comps = IF o.mesh # <<>> THEN <<>>
                      ELSE Map(@, LAMBDA c : [attrs |-> AttrNorm(c.attrs), list |-> Map(c.list, LAMBDA x : [x EXCEPT !.attrs = AttrNorm(@)])])]
ResNorm(r, pre) == [attrs |-> AttrNorm(r.attrs), assets |-> Map(r.assets, AssetNorm), objects |-> Map(r.objects, LAMBDA o : ObjectNorm(o, pre))]

Prefixes0(m) == {e.p : e \in Range(m.exts)}
ModelNorm(m) ==
  LET pre == Prefixes0(m) IN
  [lang |-> m.lang, unit |-> m.unit, thumb |-> m.thumb, exts |-> m.exts, meta |-> MetaNorm(m.meta, pre), res |-> ResNorm(m.res, pre),
   build |-> [attrs |-> AttrNorm(m.build.attrs),
              items |-> Map(m.build.items, LAMBDA i : [i EXCEPT !.meta = GroupNorm(@, pre), !.attrs = AttrNorm(@)])],
   any |-> Map(m.any, AnyNorm), attrs |-> AttrNorm(m.attrs)]
ChildNorm(c, m) == [path |-> c.path, res |-> ResNorm(c.res, Prefixes0(m)), any |-> Map(c.any, AnyNorm)]

(* What is read is compared without the declarations that were added and, for resources of unknown        *)
(* vocabularies, without the id, which belongs to the document alone.                                    *)
NoId(r) == [r EXCEPT !.assets = Map(@, LAMBDA a : IF a.k = "unk" THEN [a EXCEPT !.id = "0"] ELSE a)]
Seen(m) == LET n == ModelNorm(m) IN [n EXCEPT !.res = NoId(@)]
SeenChild(c, m) == LET n == ChildNorm(c, m) IN [n EXCEPT !.res = NoId(@)]
=============================================================================
