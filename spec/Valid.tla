------------------------------- MODULE Valid -------------------------------
(* C12-C17. The violations of a model: a sequence (the order has no meaning) of [x, p, c], where x is the *)
(* location, p the part ("" for the contents of the root part) and c the rule. Numbers are integers.       *)
(* rule = "written": the clipping rule of beam lattices as written in their specification;                 *)
(* rule = "pinned": as go3mf has it, see Lattice.                                                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

PK == INSTANCE Package
UU == INSTANCE Uuid

Of(n, i) == n \o "[" \o ToString(i - 1) \o "]"
Viol(cond, x, p, c) == IF cond THEN <<[x |-> x, p |-> p, c |-> c]>> ELSE <<>>
Cat(s) == FoldLeft(LAMBDA a, b : a \o b, <<>>, s)
LowerCase(s) == FoldLeft(LAMBDA a, ch : a \o PK!Lower(ch), "", PK!Chars(s))
FirstIn(s, P(_)) == LET S == {i \in DOMAIN s : P(s[i])} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

Default == "/3D/3dmodel.model"
URL == [m |-> "http://schemas.microsoft.com/3dmanufacturing/material/2015/02", s |-> "http://schemas.microsoft.com/3dmanufacturing/slice/2015/07",
        b |-> "http://schemas.microsoft.com/3dmanufacturing/beamlattice/2017/02", p |-> "http://schemas.microsoft.com/3dmanufacturing/production/2015/06"]
Supported == {URL.m, URL.s, URL.b, URL.p}
Declares(m, e) == \E i \in DOMAIN m.exts : m.exts[i].ns = URL[e]

---------------------------------------------------------------------------
(* Lookup.                                                                                                 *)
RootPath(m) == IF m.path = "" THEN Default ELSE m.path
Nothing == [assets |-> <<>>, objects |-> <<>>]
ResOf(m, path) == IF path = "" \/ path = RootPath(m) THEN m.res
                  ELSE LET i == FirstIn(m.childs, LAMBDA c : c.path = path) IN IF i = 0 THEN Nothing ELSE m.childs[i].res
IdOf(a) == IF a.k = "unk" THEN 0 ELSE a.id
FindA(res, id) == LET i == FirstIn(res.assets, LAMBDA a : IdOf(a) = id) IN IF i = 0 THEN <<>> ELSE <<res.assets[i]>>
FindO(res, id) == LET i == FirstIn(res.objects, LAMBDA o : o.id = id) IN IF i = 0 THEN <<>> ELSE <<res.objects[i]>>
(* How many properties a group has; -1 when the resource is not a group of properties.                     *)
Size(a) == CASE a.k = "base" -> Len(a.mats) [] a.k = "color" -> Len(a.cs) [] a.k = "texg" -> Len(a.cs)
             [] a.k = "comp" -> Len(a.vals) [] a.k = "multi" -> Len(a.ms) [] OTHER -> (0 - 1)
Outside(a, i) == Size(a) >= 0 /\ i >= Size(a)
Groups(attrs, k) == SelectSeq(attrs, LAMBDA g : g.k = k)
PathIn(attrs, k) == LET g == SelectSeq(attrs, LAMBDA a : a.k = k /\ a.path # "") IN IF g = <<>> THEN "" ELSE g[1].path
ItemPath(i) == PathIn(i.attrs, "pitem")
CompPath(c, path) == LET p == PathIn(c.attrs, "pcomp") IN IF p = "" THEN path ELSE p
Attached(m, path) == LET n == LowerCase(path) IN FirstIn(m.atts, LAMBDA a : LowerCase(a.path) = n)
Components(o) == IF o.comps = <<>> THEN <<>> ELSE o.comps[1].list

---------------------------------------------------------------------------
(* Core.                                                                                                   *)
Ticket == "http://schemas.microsoft.com/3dmanufacturing/2013/01/printticket"
TicketCT == "application/vnd.ms-printing.printticket+xml"
PartName(s) == s # "" /\ SubSeq(s, 1, 1) = "/" /\ ~ \E i \in 1..(Len(s) - 1) : SubSeq(s, i, i + 1) = "/."

Rels(m, rels, p) ==
  LET ticket(r) == r.type = Ticket /\ Attached(m, r.path) # 0
      bad(i) ==
        LET r == rels[i]
            x == Of("/model/relationship", i)
            known == Attached(m, r.path) # 0 \/ r.path = RootPath(m) \/ \E k \in DOMAIN m.childs : m.childs[k].path = r.path IN
        (IF ~PartName(r.path) THEN Viol(TRUE, x, p, "OPCPartName")
         ELSE Viol(~known, x, p, "OPCRelTarget")
              \o Viol(\E k \in 1..(i - 1) : rels[k].path = r.path /\ rels[k].type = r.type, x, p, "OPCDuplicatedRel"))
        \o (IF ~ticket(r) THEN <<>>
            ELSE Viol(m.atts[Attached(m, r.path)].ct # TicketCT, x, p, "OPCContentType")
                 \o Viol(\E k \in 1..(i - 1) : ticket(rels[k]), x, p, "OPCDuplicatedTicket"))
  IN Cat([i \in DOMAIN rels |-> bad(i)])

Wellknown == {"application", "copyright", "creationdate", "description", "designer", "licenseterms", "modificationdate", "rating", "title"}
Meta(m, md, x, p) ==
  LET bad(i) ==
        LET d == md[i] y == x \o Of("/metadata", i) IN
        (IF d.n = "" THEN Viol(TRUE, y, p, "missing:name")
         ELSE IF d.ns = "" THEN Viol(LowerCase(d.n) \notin Wellknown, y, p, "MetadataName")
         ELSE Viol(~ \E k \in DOMAIN m.exts : m.exts[k].ns = d.ns, y, p, "MetadataNamespace"))
        \o Viol(\E k \in 1..(i - 1) : md[k].ns = d.ns /\ md[k].n = d.n, y, p, "MetadataDuplicated")
  IN Cat([i \in DOMAIN md |-> bad(i)])

Extensions(m) == Viol(\E i \in DOMAIN m.exts : m.exts[i].req /\ m.exts[i].ns \notin Supported, "/model", "", "RequiredExt")

NoColor == "00000000"
Base(a, x, p) ==
  Viol(a.id = 0, x, p, "MissingID") \o Viol(a.mats = <<>>, x, p, "EmptyResourceProps")
  \o Cat([j \in DOMAIN a.mats |-> Viol(a.mats[j].name = "", x \o Of("/base", j), p, "missing:name")
                                  \o Viol(a.mats[j].color = NoColor, x \o Of("/base", j), p, "missing:displaycolor")])

SolidType(o) == o.type \in {"model", "solidsupport"}

Mesh(res, o, x, p) ==
  LET g == o.mesh[1]
      bad(i) ==
        LET t == g.ts[i]
            y == x \o Of("/triangle", i)
            a == FindA(res, t.pid)
            own == t.pid = o.pid /\ \A k \in 1..3 : t.p[k] = o.pidx IN
        Viol(t.v[1] = t.v[2] \/ t.v[1] = t.v[3] \/ t.v[2] = t.v[3], y, p, "DuplicatedIndices")
        \o Viol(\E k \in 1..3 : t.v[k] >= Len(g.vs), y, p, "IndexOutOfBounds")
        \o (IF t.pid = 0 \/ own THEN <<>>
            ELSE IF a = <<>> THEN Viol(TRUE, y, p, "MissingResource")
            ELSE Viol(\E k \in 1..3 : Outside(a[1], t.p[k]), y, p, "IndexOutOfBounds"))
  IN (IF SolidType(o) THEN Viol(Len(g.vs) < 3, x, p, "InsufficientVertices")
                           \o Viol(Len(g.ts) < 4 /\ g.any = <<>>, x, p, "InsufficientTriangles")
      ELSE <<>>)
     \o Cat([i \in DOMAIN g.ts |-> bad(i)])

Refs(m, o, x, p, path) ==
  LET cs == Components(o)
      bad(j) ==
        LET c == cs[j] y == x \o Of("/components/component", j) IN
        IF c.oid = 0 THEN Viol(TRUE, y, p, "missing:objectid")
        ELSE IF FindO(ResOf(m, CompPath(c, path)), c.oid) = <<>> THEN Viol(TRUE, y, p, "MissingResource")
        ELSE Viol(c.oid = o.id /\ CompPath(c, path) = path, y, p, "Recursion")
  IN Viol(cs # <<>> /\ o.pid # 0, x, p, "ComponentsPID") \o Cat([j \in DOMAIN cs |-> bad(j)])

Object(m, res, o, x, p, path) ==
  LET a == FindA(res, o.pid) IN
  Viol(o.id = 0, x, p, "MissingID")
  \o Viol(o.pidx # 0 /\ o.pid = 0, x, p, "missing:pid")
  \o Viol((o.mesh = <<>>) = (o.comps = <<>>), x, p, "InvalidObject")
  \o (IF o.mesh = <<>> THEN <<>>
      ELSE (IF o.pid = 0 THEN <<>>
            ELSE IF a = <<>> THEN Viol(TRUE, x, p, "MissingResource")
            ELSE Viol(Outside(a[1], o.pidx), x, p, "IndexOutOfBounds"))
           \o Mesh(res, o, x \o "/mesh", p))
  \o Refs(m, o, x, p, path)
  \o Meta(m, o.meta.md, x, p)

Items(m) ==
  LET bad(i) ==
        LET it == m.build.items[i]
            x == Of("/model/build/item", i)
            o == FindO(ResOf(m, ItemPath(it)), it.oid) IN
        (IF it.oid = 0 THEN Viol(TRUE, x, "", "missing:objectid")
         ELSE IF o = <<>> THEN Viol(TRUE, x, "", "MissingResource")
         ELSE Viol(o[1].type = "other", x, "", "OtherItem"))
        \o Meta(m, it.meta.md, x, "")
  IN Cat([i \in DOMAIN m.build.items |-> bad(i)])

---------------------------------------------------------------------------
(* Materials. References stay in the part.                                                                 *)
Color(a, x, p) ==
  Viol(a.id = 0, x, p, "MissingID") \o Viol(a.cs = <<>>, x, p, "EmptyResourceProps")
  \o Cat([j \in DOMAIN a.cs |-> Viol(a.cs[j] = NoColor, x \o Of("/color", j), p, "missing:color")])
Texture(m, a, x, p) ==
  Viol(a.id = 0, x, p, "MissingID")
  \o (IF a.path = "" THEN Viol(TRUE, x, p, "missing:path") ELSE Viol(Attached(m, a.path) = 0, x, p, "MissingTexturePart"))
  \o Viol(a.ct = "", x, p, "missing:contenttype")
TextureGroup(res, a, x, p) ==
  LET t == FindA(res, a.tid) IN
  Viol(a.id = 0, x, p, "MissingID")
  \o (IF a.tid = 0 THEN Viol(TRUE, x, p, "missing:texid") ELSE Viol(IF t = <<>> THEN TRUE ELSE t[1].k # "tex", x, p, "TextureReference"))
  \o Viol(a.cs = <<>>, x, p, "EmptyResourceProps")
Composite(res, a, x, p) ==
  LET b == FindA(res, a.mid) IN
  Viol(a.id = 0, x, p, "MissingID")
  \o (IF a.mid = 0 THEN Viol(TRUE, x, p, "missing:matid")
      ELSE IF b = <<>> THEN Viol(TRUE, x, p, "MissingResource")
      ELSE IF b[1].k # "base" THEN Viol(TRUE, x, p, "CompositeBase")
      ELSE Viol(\E i \in DOMAIN a.idx : a.idx[i] >= Len(b[1].mats), x, p, "IndexOutOfBounds"))
  \o Viol(a.idx = <<>>, x, p, "missing:matindices") \o Viol(a.vals = <<>>, x, p, "EmptyResourceProps")
Multi(res, a, x, p) ==
  LET layer == TLCEval([i \in DOMAIN a.pids |-> FindA(res, a.pids[i])])
      is(i, k) == IF layer[i] = <<>> THEN FALSE ELSE layer[i][1].k = k
      outside(g, i) == IF i \notin DOMAIN layer THEN FALSE ELSE IF layer[i] = <<>> THEN FALSE ELSE Outside(layer[i][1], g[i])
      bad(i) ==
        Viol(i > 1 /\ (is(i, "base") \/ is(i, "comp")), x, p, "MaterialMulti")
        \o Viol(is(i, "multi"), x, p, "MultiRefMulti")
        \* the second group of colours is the violation; one report is enough
        \o Viol(is(i, "color") /\ Cardinality({k \in 1..(i - 1) : is(k, "color")}) = 1, x, p, "MultiColors")
  IN Viol(a.id = 0, x, p, "MissingID") \o Viol(a.pids = <<>>, x, p, "missing:pids")
     \o Viol(Len(a.blends) > Len(a.pids) - 1, x, p, "MultiBlend")
     \o Viol(a.ms = <<>>, x, p, "EmptyResourceProps")
     \o Viol(\E i \in DOMAIN layer : layer[i] = <<>>, x, p, "MissingResource")
     \o Cat([i \in DOMAIN layer |-> bad(i)])
     \o Cat([j \in DOMAIN a.ms |-> Viol(\E i \in DOMAIN a.ms[j] : outside(a.ms[j], i), x \o Of("/multi", j), p, "IndexOutOfBounds")])

---------------------------------------------------------------------------
(* Slices.                                                                                                 *)
Stack(m, a, x, p, path) ==
  LET slice(j) ==
        LET s == a.slices[j] y == x \o Of("/slice", j) IN
        Viol(s.zt = 0, y, p, "missing:ztop") \o Viol(s.zt # 0 /\ s.zt < a.zb, y, p, "SliceSmallTopZ")
        \o Viol(j > 1 /\ s.zt <= a.slices[IF j > 1 THEN j - 1 ELSE 1].zt, y, p, "SliceNoMonotonic")
        \o (IF s.ps = <<>> /\ s.vs = <<>> THEN <<>>
            ELSE Viol(Len(s.vs) < 2, y, p, "SliceInsufficientVertices") \o Viol(s.ps = <<>>, y, p, "SliceInsufficientPolygons")
                 \o Cat([k \in DOMAIN s.ps |-> Viol(s.ps[k].segs = <<>>, y \o Of("/polygon", k), p, "SliceInsufficientSegments")]))
      complete(r) == r.path # "" /\ r.path # path /\ r.id # 0
      target(i) == FindA(ResOf(m, a.refs[i].path), a.refs[i].id)
      stack(i) == IF ~complete(a.refs[i]) THEN FALSE ELSE IF target(i) = <<>> THEN FALSE ELSE target(i)[1].k = "stack"
      full(i) == IF stack(i) THEN target(i)[1].slices # <<>> ELSE FALSE
      fulls == TLCEval([i \in DOMAIN a.refs |-> full(i)])
      before(i) == SelectLastInSubSeq(fulls, 1, i - 1, LAMBDA f : f)     \* 0: none
      ref(i) ==
        LET r == a.refs[i] y == x \o Of("/sliceref", i) IN
        Viol(r.path = "", y, p, "missing:slicepath") \o Viol(r.path # "" /\ r.path = path, y, p, "SliceRefSamePart")
        \o Viol(r.id = 0, y, p, "missing:slicestackid")
        \o (IF ~complete(r) THEN <<>>
            ELSE IF target(i) = <<>> THEN Viol(TRUE, y, p, "MissingResource")
            ELSE IF ~stack(i) THEN Viol(TRUE, y, p, "NonSliceStack")
            ELSE Viol(target(i)[1].refs # <<>>, y, p, "SliceRefRef")
                 \o (IF ~fulls[i] THEN <<>> ELSE IF before(i) = 0 THEN <<>>
                     ELSE LET last == target(before(i))[1].slices IN
                          Viol(target(i)[1].slices[1].zt <= last[Len(last)].zt, y, p, "SliceNoMonotonic")))
  IN Viol((a.slices = <<>>) = (a.refs = <<>>), x, p, "SlicesAndRefs")
     \o Cat([i \in DOMAIN a.refs |-> ref(i)]) \o Cat([j \in DOMAIN a.slices |-> slice(j)])

(* Turns about the vertical axis, scaling in the plane and moves.                                          *)
Planar(t) == IF t = <<>> THEN TRUE ELSE t[3] = 0 /\ t[6] = 0 /\ t[7] = 0 /\ t[8] = 0 /\ t[9] = 1
(* All that the build refers to, and whether every transform on the way is planar.                         *)
Full(m, path) == IF path = "" THEN RootPath(m) ELSE path
RECURSIVE Close(_, _)
Close(m, S) ==
  LET more(n) == LET o == FindO(ResOf(m, n.path), n.id) IN
        IF o = <<>> THEN {}
        ELSE {[path |-> Full(m, CompPath(Components(o[1])[k], n.path)), id |-> Components(o[1])[k].oid,
               planar |-> n.planar /\ Planar(Components(o[1])[k].tr)] : k \in DOMAIN Components(o[1])}
      T == S \cup UNION {more(n) : n \in S} IN
  IF T = S THEN S ELSE Close(m, T)
Built(m) == Close(m, {[path |-> Full(m, ItemPath(m.build.items[i])), id |-> m.build.items[i].oid, planar |-> Planar(m.build.items[i].tr)] :
                      i \in DOMAIN m.build.items})

ClosedStack(a) == \A i \in DOMAIN a.slices : \A k \in DOMAIN a.slices[i].ps :
  LET q == a.slices[i].ps[k] IN IF q.segs = <<>> THEN TRUE ELSE q.sv = q.segs[Len(q.segs)].v2
AllClosed(m, a) == /\ ClosedStack(a)
                   /\ \A i \in DOMAIN a.refs : LET t == FindA(ResOf(m, a.refs[i].path), a.refs[i].id) IN
                        IF t = <<>> THEN TRUE ELSE IF t[1].k = "stack" THEN ClosedStack(t[1]) ELSE TRUE
Sliced(m, res, o, x, p, path) ==
  LET gs == Groups(o.attrs, "sobj") IN
  IF gs = <<>> THEN <<>>
  ELSE LET g == gs[1] a == FindA(res, g.id) e == FirstIn(m.exts, LAMBDA z : z.ns = URL.s) IN
       (IF g.id = 0 THEN Viol(TRUE, x, p, "missing:slicestackid")
        ELSE IF a = <<>> THEN Viol(TRUE, x, p, "MissingResource")
        ELSE IF a[1].k # "stack" THEN Viol(TRUE, x, p, "NonSliceStack")
        ELSE Viol([path |-> Full(m, path), id |-> o.id, planar |-> FALSE] \in Built(m), x, p, "SliceInvalidTransform")
             \o Viol(SolidType(o) /\ ~AllClosed(m, a[1]), x, p, "SlicePolygonNotClosed"))
       \o Viol(g.res = "lowres" /\ ~m.exts[e].req, x, p, "SliceExtRequired")

---------------------------------------------------------------------------
(* Beam lattices.                                                                                          *)
Lattices(o) == IF o.mesh = <<>> THEN <<>> ELSE SelectSeq(o.mesh[1].any, LAMBDA y : y.k = "bl")
Lattice(rule, res, o, x, p) ==
  LET ls == Lattices(o) IN
  IF ls = <<>> THEN <<>>
  ELSE
  LET b == ls[1]
      y == x \o "/mesh/beamlattice"
      other(id) ==
        IF id = 0 THEN <<>>
        ELSE IF id = o.id THEN Viol(TRUE, y, p, "Recursion")
        ELSE LET i == FirstIn(res.objects, LAMBDA q : q.id \in {id, o.id}) IN
             IF i = 0 THEN <<>>
             ELSE IF res.objects[i].id = o.id THEN Viol(TRUE, y, p, "MissingResource")
             ELSE Viol(res.objects[i].mesh = <<>> \/ res.objects[i].type # "model" \/ Lattices(res.objects[i]) # <<>>, y, p, "LatticeInvalidMesh")
      beam(i) ==
        LET q == b.beams[i] z == y \o Of("/beam", i) IN
        (IF q.v[1] = q.v[2] THEN Viol(TRUE, z, p, "LatticeSameVertex")
         ELSE Viol(q.v[1] >= Len(o.mesh[1].vs) \/ q.v[2] >= Len(o.mesh[1].vs), z, p, "IndexOutOfBounds"))
        \o Viol(q.r[1] # 0 /\ q.r[1] # b.rad /\ q.r[1] # q.r[2], z, p, "LatticeBeamR2")
  IN Viol(~SolidType(o), y, p, "LatticeObjType") \o Viol(b.minl = 0, y, p, "missing:minlength") \o Viol(b.rad = 0, y, p, "missing:radius")
     \* clipping needs a mesh
     \o Viol(IF rule = "written" THEN b.clip # "none" /\ b.cm = 0 ELSE b.clip = "none" /\ b.cm = 0, y, p, "LatticeClippedNoMesh")
     \o other(b.cm) \o other(b.rm)
     \o Cat([i \in DOMAIN b.beams |-> beam(i)])
     \o Cat([i \in DOMAIN b.sets |-> Viol(\E k \in DOMAIN b.sets[i].refs : b.sets[i].refs[k] >= Len(b.beams), y \o Of("/beamset", i), p, "IndexOutOfBounds")])

---------------------------------------------------------------------------
(* Production.                                                                                             *)
NeedsUuid(s, x, p) == IF s = "" THEN Viol(TRUE, x, p, "missing:UUID") ELSE Viol(~UU!Accept(s), x, p, "UUID")
BuildIds(m) ==
  LET g == Groups(m.build.attrs, "pbuild") IN
  (IF g = <<>> THEN Viol(TRUE, "/model/build", "", "missing:UUID") ELSE Viol(~UU!Accept(g[1].uuid), "/model/build", "", "UUID"))
  \o Cat([i \in DOMAIN m.build.items |-> LET h == Groups(m.build.items[i].attrs, "pitem") IN
                                         NeedsUuid(IF h = <<>> THEN "" ELSE h[1].uuid, Of("/model/build/item", i), "")])
ObjectIds(m, o, x, p, path) ==
  LET g == Groups(o.attrs, "pobj")
      cs == Components(o)
      bad(j) == LET h == Groups(cs[j].attrs, "pcomp") y == x \o Of("/components/component", j) IN
                NeedsUuid(IF h = <<>> THEN "" ELSE h[1].uuid, y, p)
                \o (IF h = <<>> THEN <<>> ELSE Viol(h[1].path # "" /\ path # RootPath(m), y, p, "ProdRefInNonRoot"))
  IN (IF g = <<>> THEN Viol(TRUE, x, p, "missing:UUID") ELSE Viol(~UU!Accept(g[1].uuid), x, p, "UUID"))
     \o Cat([j \in DOMAIN cs |-> bad(j)])

(* Identifiers are filled in where there is none, here with id.                                             *)
Filling(m, id) ==
  LET fill(attrs, k) ==
        LET i == FirstIn(attrs, LAMBDA g : g.k = k) IN
        IF i = 0 THEN Append(attrs, IF k \in {"pitem", "pcomp"} THEN [k |-> k, uuid |-> id, path |-> ""] ELSE [k |-> k, uuid |-> id])
        ELSE IF attrs[i].uuid = "" THEN [attrs EXCEPT ![i].uuid = id] ELSE attrs
      comps(cs) == [k \in DOMAIN cs |-> [cs[k] EXCEPT !.list = [j \in DOMAIN @ |-> [@[j] EXCEPT !.attrs = fill(@, "pcomp")]]]]
      objs(r) == [r EXCEPT !.objects = [i \in DOMAIN @ |-> [@[i] EXCEPT !.attrs = fill(@, "pobj"), !.comps = comps(@)]]]
  IN [m EXCEPT !.build.attrs = fill(@, "pbuild"), !.build.items = [i \in DOMAIN @ |-> [@[i] EXCEPT !.attrs = fill(@, "pitem")]],
               !.res = objs(@), !.childs = [i \in DOMAIN @ |-> [@[i] EXCEPT !.res = objs(@)]]]

---------------------------------------------------------------------------
(* All of it.                                                                                              *)
Local(a) == CASE a.k = "base" -> "basematerials" [] a.k = "color" -> "colorgroup" [] a.k = "tex" -> "texture2d" [] a.k = "texg" -> "texture2dgroup"
              [] a.k = "comp" -> "compositematerials" [] a.k = "multi" -> "multiproperties" [] a.k = "stack" -> "slicestack" [] OTHER -> a.tree.n

(* own: the resources of the part itself; references are looked up in the part its name leads to.          *)
PartErrs(rule, m, own, p, path) ==
  LET res == ResOf(m, path)
      asset(i) ==
        LET a == own.assets[i] x == Of("/model/resources/" \o Local(a), i) IN
        Viol(IdOf(a) # 0 /\ \E k \in 1..(i - 1) : IdOf(own.assets[k]) = IdOf(a), x, p, "DuplicatedID")
        \o (CASE a.k = "base" -> Base(a, x, p)
              [] a.k = "stack" -> IF Declares(m, "s") THEN Stack(m, a, x, p, path) ELSE <<>>
              [] a.k = "unk" \/ ~Declares(m, "m") -> <<>>
              [] a.k = "color" -> Color(a, x, p) [] a.k = "tex" -> Texture(m, a, x, p) [] a.k = "texg" -> TextureGroup(res, a, x, p)
              [] a.k = "comp" -> Composite(res, a, x, p) [] a.k = "multi" -> Multi(res, a, x, p))
      object(i) ==
        LET o == own.objects[i] x == Of("/model/resources/object", i) IN
        Viol(o.id # 0 /\ ((\E k \in DOMAIN own.assets : IdOf(own.assets[k]) = o.id) \/ \E k \in 1..(i - 1) : own.objects[k].id = o.id), x, p, "DuplicatedID")
        \o Object(m, res, o, x, p, path)
        \o (IF Declares(m, "s") THEN Sliced(m, res, o, x, p, path) ELSE <<>>)
        \o (IF Declares(m, "b") THEN Lattice(rule, res, o, x, p) ELSE <<>>)
        \o (IF Declares(m, "p") THEN ObjectIds(m, o, x, p, path) ELSE <<>>)
  IN Cat([i \in DOMAIN own.assets |-> asset(i)]) \o Cat([i \in DOMAIN own.objects |-> object(i)])

Errs(rule, m) ==
  Rels(m, m.rrels, "")
  \o Extensions(m)
  \o Cat([i \in DOMAIN m.childs |-> IF m.childs[i].path = RootPath(m) THEN Viol(TRUE, "/model", "", "OPCDuplicatedModelName")
                                    ELSE Rels(m, m.childs[i].rels, m.childs[i].path)])
  \o Rels(m, m.rels, RootPath(m))
  \o Meta(m, m.meta, "/model", "")
  \o (IF Declares(m, "p") THEN BuildIds(m) ELSE <<>>)
  \o Cat([i \in DOMAIN m.childs |-> PartErrs(rule, m, m.childs[i].res, m.childs[i].path, m.childs[i].path)])
  \o PartErrs(rule, m, m.res, "", RootPath(m))
  \o Items(m)

Bag(l) == LET s == TLCEval(l) IN [e \in {s[i] : i \in DOMAIN s} |-> Cardinality({i \in DOMAIN s : s[i] = e})]

---------------------------------------------------------------------------
(* The part of the violations that each property is about.                                                 *)
Has(a, t) == LET s == TLCEval(a) n == Len(t) IN \E i \in 1..(Len(s) - n + 1) : SubSeq(s, i, i + n - 1) = t
MatKinds == {"colorgroup[", "texture2d[", "texture2dgroup[", "compositematerials[", "multiproperties["}
ProdCodes == {"missing:UUID", "UUID", "ProdRefInNonRoot"}
SliceCodes == {"SliceInvalidTransform", "SlicePolygonNotClosed", "SliceExtRequired", "NonSliceStack", "missing:slicestackid"}
About(area, e) ==
  LET mat == \E k \in MatKinds : Has(e.x, "resources/" \o k)
      sl == Has(e.x, "resources/slicestack[") \/ e.c \in SliceCodes
      bl == Has(e.x, "/beamlattice")
      pr == e.c \in ProdCodes
      both == ~Has(e.x, "]/") /\ e.c = "MissingResource"     \* of an object: its property or its stack
      graph == e.c \in {"Recursion", "MissingResource", "missing:objectid"} /\ (Has(e.x, "/component[") \/ Has(e.x, "/item["))
      core == e.c = "DuplicatedID" \/ ~(mat \/ sl \/ bl \/ pr)
  IN CASE area = "C12" -> core
       [] area = "C13" -> mat /\ ~(e.c = "DuplicatedID")
       [] area = "C14" -> (sl /\ ~(e.c = "DuplicatedID")) \/ both
       [] area = "C15" -> bl
       [] area = "C16" -> pr
       [] area = "C17" -> graph
       [] OTHER -> TRUE
Part(area, s) == SelectSeq(s, LAMBDA e : About(area, e))
============================================================================
