------------------------------- MODULE Codec -------------------------------
(* C01-C05. The meaning of a model document: DecodeRoot and DecodeChild give the value that a tree of    *)
(* elements denotes and the set of malformed attributes in it.                                           *)
(*                                                                                                       *)
(* A node is [t |-> "S", ns, n, o, a, c], an element with its position o in the document, its attributes *)
(* and its children, or [t |-> "T", s], text. An attribute is [ns, n, s, u, f, x]: its text s and what   *)
(* the text denotes as a 32-bit unsigned integer (u), as a number (f) and in other notations (x); "!"    *)
(* means that it denotes none. Numbers are represented by their canonical text.                          *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

Known == {"core", "m", "s", "b", "p"}
MaterialKinds == {"colorgroup", "texture2d", "texture2dgroup", "compositematerials", "multiproperties"}

Map(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]
Flat(s) == FlattenSeq(s)
Kids(n, ns, name) == SelectSeq(n.c, LAMBDA k : k.t = "S" /\ k.ns = ns /\ k.n = name)
AllKids(ns0, ns, name) == Flat(Map(ns0, LAMBDA n : Kids(n, ns, name)))

---------------------------------------------------------------------------
(* Attributes.                                                                                           *)
Sel(n, names) == SelectSeq(n.a, LAMBDA a : a.ns = "" /\ a.n \in names)
HasAttr(n, name) == Sel(n, {name}) # <<>>
The(n, name) == Last(Sel(n, {name}))
Str(n, name) == IF HasAttr(n, name) THEN The(n, name).s ELSE ""
Uint(n, name) == IF HasAttr(n, name) /\ The(n, name).u # "!" THEN The(n, name).u ELSE "0"
OneOf(n, names) == IF Sel(n, names) = <<>> THEN "0" ELSE LET v == Last(Sel(n, names)).f IN IF v = "!" THEN "0" ELSE v
Flt(n, name) == OneOf(n, {name})
Enum(n, names, values, default) == IF Sel(n, names) = <<>> THEN default ELSE LET v == Last(Sel(n, names)).s IN IF v \in values THEN v ELSE default
ZeroIfBad(v) == IF v = "!" THEN "0" ELSE v
Uints(n, name) == IF HasAttr(n, name) THEN Map(The(n, name).x.us, ZeroIfBad) ELSE <<>>
Flts(n, name) == IF HasAttr(n, name) THEN Map(The(n, name).x.fs, ZeroIfBad) ELSE <<>>
Words(n, name) == IF HasAttr(n, name) THEN The(n, name).x.ws ELSE <<>>
Color(n, name) == IF HasAttr(n, name) /\ The(n, name).x.c # "!" THEN The(n, name).x.c ELSE "00000000"
IdentityText == <<"1", "0", "0", "0", "1", "0", "0", "0", "1", "0", "0", "0">>
Matrix(n, name) == IF ~HasAttr(n, name) THEN <<>> ELSE IF The(n, name).x.m = IdentityText THEN <<>> ELSE The(n, name).x.m

Units == {"millimeter", "micron", "centimeter", "inch", "foot", "meter"}
ObjectTypes == {"model", "other", "support", "solidsupport", "surface"}
TextureTypes == {"image/png", "image/jpeg"}
TileStyles == {"wrap", "mirror", "clamp", "none"}
Filters == {"auto", "linear", "nearest"}
ClipModes == {"none", "inside", "outside"}
Caps == {"sphere", "hemisphere", "butt"}
Blends == {"mix", "multiply"}
Resolutions == {"fullres", "lowres"}

(* Which unqualified attributes of an element are checked, as <<element, attribute, notation, required>>. *)
Rules == {
  <<"core:model", "unit", "unit", FALSE>>,
  <<"core:item", "objectid", "u", TRUE>>, <<"core:item", "transform", "m", FALSE>>,
  <<"core:basematerials", "id", "u", TRUE>>, <<"core:base", "displaycolor", "color", TRUE>>,
  <<"core:vertex", "x", "f", TRUE>>, <<"core:vertex", "y", "f", TRUE>>, <<"core:vertex", "z", "f", TRUE>>,
  <<"core:triangle", "v1", "u", TRUE>>, <<"core:triangle", "v2", "u", TRUE>>, <<"core:triangle", "v3", "u", TRUE>>,
  <<"core:triangle", "pid", "u", FALSE>>, <<"core:triangle", "p1", "u", FALSE>>, <<"core:triangle", "p2", "u", FALSE>>,
  <<"core:triangle", "p3", "u", FALSE>>,
  <<"core:object", "id", "u", TRUE>>, <<"core:object", "type", "type", FALSE>>, <<"core:object", "pid", "u", FALSE>>,
  <<"core:object", "pindex", "u", FALSE>>,
  <<"core:component", "objectid", "u", TRUE>>, <<"core:component", "transform", "m", FALSE>>,
  <<"unknown", "id", "u", TRUE>>,
  <<"m:colorgroup", "id", "u", TRUE>>, <<"m:color", "color", "color", TRUE>>,
  <<"m:texture2d", "id", "u", TRUE>>, <<"m:texture2dgroup", "id", "u", TRUE>>, <<"m:texture2dgroup", "texid", "u", TRUE>>,
  <<"m:tex2coord", "u", "f", TRUE>>, <<"m:tex2coord", "v", "f", TRUE>>,
  <<"m:compositematerials", "id", "u", TRUE>>, <<"m:compositematerials", "matid", "u", TRUE>>,
  <<"m:compositematerials", "matindices", "us", TRUE>>, <<"m:composite", "values", "fs", TRUE>>,
  <<"m:multiproperties", "id", "u", TRUE>>, <<"m:multiproperties", "pids", "us", TRUE>>, <<"m:multi", "pindices", "us", TRUE>>,
  <<"s:slicestack", "id", "u", TRUE>>, <<"s:slicestack", "zbottom", "f", FALSE>>, <<"s:sliceref", "slicestackid", "u", TRUE>>,
  <<"s:slice", "ztop", "f", TRUE>>, <<"s:vertex", "x", "f", TRUE>>, <<"s:vertex", "y", "f", TRUE>>,
  <<"s:polygon", "startv", "u", TRUE>>, <<"s:segment", "v2", "u", TRUE>>, <<"s:segment", "pid", "u", FALSE>>,
  <<"s:segment", "p1", "u", FALSE>>, <<"s:segment", "p2", "u", FALSE>>,
  <<"b:beamlattice", "radius", "f", TRUE>>, <<"b:beamlattice", "minlength", "f", TRUE>>, <<"b:beamlattice", "precision", "f", TRUE>>,
  <<"b:beamlattice", "clippingmode", "clip", FALSE>>, <<"b:beamlattice", "clipping", "clip", FALSE>>,
  <<"b:beamlattice", "clippingmesh", "u", FALSE>>, <<"b:beamlattice", "representationmesh", "u", FALSE>>,
  <<"b:beamlattice", "cap", "cap", FALSE>>,
  <<"b:beam", "v1", "u", TRUE>>, <<"b:beam", "v2", "u", TRUE>>, <<"b:beam", "r1", "f", FALSE>>, <<"b:beam", "r2", "f", FALSE>>,
  <<"b:ref", "index", "u", TRUE>>}

(* And which qualified ones, as <<element, vocabulary, attribute, notation, required>>.                  *)
ForeignRules == {<<e, "p", "UUID", "uuid", TRUE>> : e \in {"core:build", "core:item", "core:object", "core:component"}}
                \cup {<<"core:object", "s", "slicestackid", "u", TRUE>>, <<"core:object", "s", "meshresolution", "res", FALSE>>}

(* How many times the text of an attribute fails its notation.                                           *)
Failures(a, notation) ==
  CASE notation = "u" -> IF a.u = "!" THEN 1 ELSE 0
    [] notation = "f" -> IF a.f = "!" THEN 1 ELSE 0
    [] notation = "m" -> IF a.x.m = <<>> THEN 1 ELSE 0
    [] notation = "us" -> Cardinality({i \in DOMAIN a.x.us : a.x.us[i] = "!"})
    [] notation = "fs" -> Cardinality({i \in DOMAIN a.x.fs : a.x.fs[i] = "!"})
    [] notation = "color" -> IF a.x.c = "!" THEN 1 ELSE 0
    [] notation = "uuid" -> IF a.x.uu THEN 0 ELSE 1
    [] notation = "unit" -> IF a.s \in Units THEN 0 ELSE 1
    [] notation = "type" -> IF a.s \in ObjectTypes THEN 0 ELSE 1
    [] notation = "clip" -> IF a.s \in ClipModes THEN 0 ELSE 1
    [] notation = "cap" -> IF a.s \in Caps THEN 0 ELSE 1
    [] notation = "res" -> IF a.s \in Resolutions THEN 0 ELSE 1

(* The rule for an attribute of an element of the given kind: <<>> if its text is free.                  *)
RuleOf(kind, a) ==
  IF a.ns = "" THEN LET R == {r \in Rules : r[1] = kind /\ r[2] = a.n} IN IF R = {} THEN <<>> ELSE CHOOSE r \in R : TRUE
  ELSE LET R == {r \in ForeignRules : r[1] = kind /\ r[2] = a.ns /\ r[3] = a.n} IN
       IF R = {} THEN <<>> ELSE LET r == CHOOSE r \in R : TRUE IN <<r[1], r[3], r[4], r[5]>>

(* The malformed attributes of one element, located at path. They are ordered by element and attribute.  *)
Malformed(n, kind, path) ==
  UNION {LET r == RuleOf(kind, n.a[j]) IN
         IF r = <<>> THEN {}
         ELSE {[o |-> n.o, i |-> 100 * j + k, x |-> path, c |-> "attr:" \o n.a[j].n \o (IF r[4] THEN ":req" ELSE ":opt")]
                 : k \in 1..Failures(n.a[j], r[3])}
         : j \in DOMAIN n.a}
In(ns, n, path) == Malformed(n, ns \o ":" \o n.n, path)
At(path, name) == path \o "/" \o name
Nth(path, name, i) == path \o "/" \o name \o "[" \o ToString(i - 1) \o "]"
Each(s, F(_, _)) == UNION {F(s[i], i) : i \in DOMAIN s}

---------------------------------------------------------------------------
(* Attributes of other vocabularies, grouped by vocabulary in the order in which they appear.            *)
Plain(a) == [ns |-> a.ns, n |-> a.n, s |-> a.s]
Foreign(n) == SelectSeq(n.a, LAMBDA a : a.ns # "")
SpacesOf(as) ==
  LET F[i \in 0..Len(as)] == IF i = 0 THEN <<>> ELSE IF \E j \in DOMAIN F[i - 1] : F[i - 1][j] = as[i].ns THEN F[i - 1] ELSE Append(F[i - 1], as[i].ns)
  IN F[Len(as)]
GroupOf(as, ns, elem) ==
  LET mine == SelectSeq(as, LAMBDA a : a.ns = ns)
      text(name) == LET s == SelectSeq(mine, LAMBDA a : a.n = name) IN IF s = <<>> THEN "" ELSE Last(s).s
      uuid == LET s == SelectSeq(mine, LAMBDA a : a.n = "UUID" /\ a.x.uu) IN IF s = <<>> THEN "" ELSE Last(s).s
      id == LET s == SelectSeq(mine, LAMBDA a : a.n = "slicestackid" /\ a.u # "!") IN IF s = <<>> THEN "0" ELSE Last(s).u
      res == LET s == SelectSeq(mine, LAMBDA a : a.n = "meshresolution" /\ a.s \in Resolutions) IN IF s = <<>> THEN "fullres" ELSE Last(s).s
  IN CASE ns = "p" /\ elem = "build" -> [k |-> "pbuild", uuid |-> uuid]
       [] ns = "p" /\ elem = "object" -> [k |-> "pobj", uuid |-> uuid]
       [] ns = "p" /\ elem = "item" -> [k |-> "pitem", uuid |-> uuid, path |-> text("path")]
       [] ns = "p" /\ elem = "component" -> [k |-> "pcomp", uuid |-> uuid, path |-> text("path")]
       [] ns = "s" /\ elem = "object" -> [k |-> "sobj", id |-> id, res |-> res]
       [] OTHER -> [k |-> "u", ns |-> ns, a |-> Map(mine, Plain)]
Groups(as, elem) == LET sp == SpacesOf(as) IN Map(sp, LAMBDA ns : GroupOf(as, ns, elem))
AttrsOf(nodes) == Flat(Map(nodes, LAMBDA n : n.a))

---------------------------------------------------------------------------
(* Content of other vocabularies, kept as it is.                                                         *)
RECURSIVE Keep(_)
Keep(n) == IF n.t = "T" THEN [t |-> "T", s |-> n.s]
           ELSE [t |-> "S", ns |-> n.ns, n |-> n.n, a |-> Map(n.a, Plain), c |-> Map(n.c, Keep)]

(* The text directly in an element.                                                                      *)
TextOf(n) == LET F[i \in 0..Len(n.c)] == IF i = 0 THEN "" ELSE IF n.c[i].t = "T" THEN F[i - 1] \o n.c[i].s ELSE F[i - 1] IN F[Len(n.c)]

(* Metadata; prefixes are those declared by the model element of the part.                               *)
MetaVal(n, prefixes) ==
  LET has == HasAttr(n, "name")
      v == The(n, "name").x
      q == has /\ v.colon /\ v.pre \in prefixes
  IN [ns |-> IF q THEN v.pre ELSE "", n |-> IF q THEN v.loc ELSE Str(n, "name"), val |-> TextOf(n), type |-> Str(n, "type"),
      pres |-> HasAttr(n, "preserve") /\ The(n, "preserve").x.b]
MetaGroup(gs, prefixes) ==
  [md |-> Map(AllKids(gs, "core", "metadata"), LAMBDA n : MetaVal(n, prefixes)), attrs |-> Groups(AttrsOf(gs), "metadatagroup")]

---------------------------------------------------------------------------
(* Materials.                                                                                            *)
ColorGroup(n) == [k |-> "color", id |-> Uint(n, "id"), cs |-> Map(Kids(n, "m", "color"), LAMBDA x : Color(x, "color"))]
Texture(n) == [k |-> "tex", id |-> Uint(n, "id"), path |-> Str(n, "path"), ct |-> Enum(n, {"contenttype"}, TextureTypes, ""),
               u |-> Enum(n, {"tilestyleu"}, TileStyles, "wrap"), v |-> Enum(n, {"tilestylev"}, TileStyles, "wrap"), f |-> Enum(n, {"filter"}, Filters, "auto")]
TextureGroup(n) == [k |-> "texg", id |-> Uint(n, "id"), tid |-> Uint(n, "texid"), cs |-> Map(Kids(n, "m", "tex2coord"), LAMBDA x : <<Flt(x, "u"), Flt(x, "v")>>)]
Composites(n) == [k |-> "comp", id |-> Uint(n, "id"), mid |-> Uint(n, "matid"), idx |-> Uints(n, "matindices"),
                  vals |-> Map(Kids(n, "m", "composite"), LAMBDA x : Flts(x, "values"))]
Blend(w) == IF w \in Blends THEN w ELSE "mix"
Multi(n) == [k |-> "multi", id |-> Uint(n, "id"), pids |-> Uints(n, "pids"), blends |-> Map(Words(n, "blendmethods"), Blend),
             ms |-> Map(Kids(n, "m", "multi"), LAMBDA x : Uints(x, "pindices"))]
MaterialErrs(n, path) ==
  LET of(name) == Each(Kids(n, "m", name), LAMBDA x, i : In("m", x, Nth(path, name, i)))
  IN In("m", n, path) \cup
     (CASE n.n = "colorgroup" -> of("color") [] n.n = "texture2dgroup" -> of("tex2coord") [] n.n = "compositematerials" -> of("composite")
        [] n.n = "multiproperties" -> of("multi") [] OTHER -> {})

(* Slices.                                                                                               *)
Segment(n) == [v2 |-> Uint(n, "v2"), pid |-> Uint(n, "pid"), p1 |-> Uint(n, "p1"),
               p2 |-> IF HasAttr(n, "p1") /\ ~HasAttr(n, "p2") THEN Uint(n, "p1") ELSE Uint(n, "p2")]
Slice(n) == [zt |-> Flt(n, "ztop"), vs |-> Map(AllKids(Kids(n, "s", "vertices"), "s", "vertex"), LAMBDA v : <<Flt(v, "x"), Flt(v, "y")>>),
             ps |-> Map(Kids(n, "s", "polygon"), LAMBDA p : [sv |-> Uint(p, "startv"), segs |-> Map(Kids(p, "s", "segment"), Segment)])]
Stack(n) == [k |-> "stack", id |-> Uint(n, "id"), zb |-> Flt(n, "zbottom"), slices |-> Map(Kids(n, "s", "slice"), Slice),
             refs |-> Map(Kids(n, "s", "sliceref"), LAMBDA r : [id |-> Uint(r, "slicestackid"), path |-> Str(r, "slicepath")])]
SliceErrs(n, path) ==
  In("s", n, path)
  \cup Each(AllKids(Kids(n, "s", "vertices"), "s", "vertex"), LAMBDA v, i : In("s", v, Nth(At(path, "vertices"), "vertex", i)))
  \cup Each(Kids(n, "s", "polygon"), LAMBDA p, i : In("s", p, Nth(path, "polygon", i))
              \cup Each(Kids(p, "s", "segment"), LAMBDA g, j : In("s", g, Nth(Nth(path, "polygon", i), "segment", j))))
StackErrs(n, path) ==
  In("s", n, path) \cup Each(Kids(n, "s", "sliceref"), LAMBDA r, i : In("s", r, Nth(path, "sliceref", i)))
                   \cup Each(Kids(n, "s", "slice"), LAMBDA r, i : SliceErrs(r, Nth(path, "slice", i)))

(* Beam lattices: a beam takes missing radii and caps from the lattice, its second radius from the first. *)
Beam(n, rad, cap) ==
  LET r1 == IF Flt(n, "r1") = "0" THEN rad ELSE Flt(n, "r1")
      r2 == IF Flt(n, "r2") = "0" THEN r1 ELSE Flt(n, "r2")
  IN [v |-> <<Uint(n, "v1"), Uint(n, "v2")>>, r |-> <<r1, r2>>, cap |-> <<Enum(n, {"cap1"}, Caps, cap), Enum(n, {"cap2"}, Caps, cap)>>]
Lattice(n) ==
  LET rad == Flt(n, "radius") cap == Enum(n, {"cap"}, Caps, "sphere") IN
  [k |-> "bl", clip |-> Enum(n, {"clippingmode", "clipping"}, ClipModes, "none"), cm |-> Uint(n, "clippingmesh"), rm |-> Uint(n, "representationmesh"),
   minl |-> OneOf(n, {"minlength", "precision"}), rad |-> rad, cap |-> cap,
   beams |-> Map(AllKids(Kids(n, "b", "beams"), "b", "beam"), LAMBDA b : Beam(b, rad, cap)),
   sets |-> Map(AllKids(Kids(n, "b", "beamsets"), "b", "beamset"),
                LAMBDA t : [name |-> Str(t, "name"), ident |-> Str(t, "identifier"), refs |-> Map(Kids(t, "b", "ref"), LAMBDA r : Uint(r, "index"))])]
LatticeErrs(n, path) ==
  In("b", n, path)
  \cup Each(AllKids(Kids(n, "b", "beams"), "b", "beam"), LAMBDA b, i : In("b", b, Nth(At(path, "beams"), "beam", i)))
  \cup Each(AllKids(Kids(n, "b", "beamsets"), "b", "beamset"),
            LAMBDA t, i : Each(Kids(t, "b", "ref"), LAMBDA r, j : In("b", r, Nth(Nth(At(path, "beamsets"), "beamset", i), "ref", j))))

---------------------------------------------------------------------------
(* Resources.                                                                                            *)
IsMaterial(n) == n.ns = "m" /\ n.n \in MaterialKinds
IsStack(n) == n.ns = "s" /\ n.n = "slicestack"
IsLattice(n) == n.ns = "b" /\ n.n = "beamlattice"
IsBase(n) == n.ns = "core" /\ n.n = "basematerials"
IsUnknown(n) == n.ns \notin Known
IsAsset(n) == n.t = "S" /\ (IsBase(n) \/ IsMaterial(n) \/ IsStack(n) \/ IsUnknown(n))
(* Elements that stand at an extension point of the model or of a mesh.                                  *)
IsAny(n) == n.t = "S" /\ (IsMaterial(n) \/ IsStack(n) \/ IsLattice(n) \/ IsUnknown(n))

Base(n) == [k |-> "base", id |-> Uint(n, "id"), attrs |-> Groups(Foreign(n), "basematerials"),
            mats |-> Map(Kids(n, "core", "base"), LAMBDA b : [name |-> Str(b, "name"), color |-> Color(b, "displaycolor"), attrs |-> Groups(Foreign(b), "base")])]
Material(n) == CASE n.n = "colorgroup" -> ColorGroup(n) [] n.n = "texture2d" -> Texture(n) [] n.n = "texture2dgroup" -> TextureGroup(n)
                 [] n.n = "compositematerials" -> Composites(n) [] n.n = "multiproperties" -> Multi(n)
Asset(n) == IF IsBase(n) THEN Base(n) ELSE IF IsMaterial(n) THEN Material(n) ELSE IF IsStack(n) THEN Stack(n)
            ELSE [k |-> "unk", id |-> Uint(n, "id"), tree |-> Keep(n)]
AssetErrs(n, path) ==
  IF IsBase(n) THEN In("core", n, path) \cup Each(Kids(n, "core", "base"), LAMBDA b, i : In("core", b, Nth(path, "base", i)))
  ELSE IF IsMaterial(n) THEN MaterialErrs(n, path) ELSE IF IsStack(n) THEN StackErrs(n, path) ELSE Malformed(n, "unknown", path)
AnyVal(n) == IF IsMaterial(n) THEN Material(n) ELSE IF IsStack(n) THEN Stack(n) ELSE IF IsLattice(n) THEN Lattice(n) ELSE [k |-> "tok", tree |-> Keep(n)]
AnyErrs(n, path) == IF IsMaterial(n) THEN MaterialErrs(n, path) ELSE IF IsStack(n) THEN StackErrs(n, path) ELSE IF IsLattice(n) THEN LatticeErrs(n, path) ELSE {}
Anys(n) == Map(SelectSeq(n.c, IsAny), AnyVal)
AnysErrs(n, path) == Each(SelectSeq(n.c, IsAny), LAMBDA x, i : AnyErrs(x, At(path, x.n)))

(* A triangle takes the property and the first index from the object, the others from the first.         *)
Triangle(n, pid, pidx) ==
  LET d(name, default) == IF HasAttr(n, name) THEN Uint(n, name) ELSE default
      p1 == d("p1", pidx)
  IN [v |-> <<Uint(n, "v1"), Uint(n, "v2"), Uint(n, "v3")>>, pid |-> d("pid", pid), p |-> <<p1, d("p2", p1), d("p3", p1)>>,
      attrs |-> Groups(Foreign(n), "triangle")]
Mesh(n, pid, pidx) ==
  LET vc == Kids(n, "core", "vertices") tc == Kids(n, "core", "triangles") IN
  [attrs |-> Groups(n.a, "mesh"), vattrs |-> Groups(AttrsOf(vc), "vertices"), tattrs |-> Groups(AttrsOf(tc), "triangles"),
   vs |-> Map(AllKids(vc, "core", "vertex"), LAMBDA v : <<Flt(v, "x"), Flt(v, "y"), Flt(v, "z")>>),
   ts |-> Map(AllKids(tc, "core", "triangle"), LAMBDA t : Triangle(t, pid, pidx)), any |-> Anys(n)]
MeshErrs(n, path) ==
  Each(AllKids(Kids(n, "core", "vertices"), "core", "vertex"), LAMBDA v, i : In("core", v, Nth(At(path, "vertices"), "vertex", i)))
  \cup Each(AllKids(Kids(n, "core", "triangles"), "core", "triangle"), LAMBDA v, i : In("core", v, Nth(At(path, "triangles"), "triangle", i)))
  \cup AnysErrs(n, path)
Components(n) ==
  [attrs |-> Groups(n.a, "components"),
   list |-> Map(Kids(n, "core", "component"), LAMBDA x : [oid |-> Uint(x, "objectid"), tr |-> Matrix(x, "transform"), attrs |-> Groups(Foreign(x), "component")])]
(* The last mesh and the last list of components of an object count.                                     *)
LastOf(s) == IF s = <<>> THEN <<>> ELSE <<Last(s)>>
Object(n, prefixes) ==
  [id |-> Uint(n, "id"), name |-> Str(n, "name"), pn |-> Str(n, "partnumber"), thumb |-> Str(n, "thumbnail"), pid |-> Uint(n, "pid"),
   pidx |-> Uint(n, "pindex"), type |-> Enum(n, {"type"}, ObjectTypes, "model"), meta |-> MetaGroup(Kids(n, "core", "metadatagroup"), prefixes),
   mesh |-> Map(LastOf(Kids(n, "core", "mesh")), LAMBDA m : Mesh(m, Uint(n, "pid"), Uint(n, "pindex"))),
   comps |-> Map(LastOf(Kids(n, "core", "components")), Components), attrs |-> Groups(Foreign(n), "object")]
ObjectErrs(n, path) ==
  In("core", n, path) \cup Each(Kids(n, "core", "mesh"), LAMBDA m, i : MeshErrs(m, At(path, "mesh")))
  \cup Each(Kids(n, "core", "components"), LAMBDA c, i : Each(Kids(c, "core", "component"), LAMBDA x, j : In("core", x, Nth(At(path, "components"), "component", j))))

ResourcesOf(rs, prefixes) ==
  [attrs |-> Groups(AttrsOf(rs), "resources"),
   assets |-> Map(SelectSeq(Flat(Map(rs, LAMBDA r : r.c)), IsAsset), Asset),
   objects |-> Map(AllKids(rs, "core", "object"), LAMBDA o : Object(o, prefixes))]
ResourcesErrs(rs) ==
  Each(SelectSeq(Flat(Map(rs, LAMBDA r : r.c)), IsAsset), LAMBDA a, i : AssetErrs(a, Nth("/model/resources", a.n, i)))
  \cup Each(AllKids(rs, "core", "object"), LAMBDA o, i : ObjectErrs(o, Nth("/model/resources", "object", i)))

---------------------------------------------------------------------------
(* Models.                                                                                               *)
IsModel(t) == t.t = "S" /\ t.ns = "core" /\ t.n = "model"
Decls(n) == SelectSeq(n.a, LAMBDA a : a.ns = "xmlns")
DeclPrefixes(n) == {d.n : d \in Range(Decls(n))}
Required(n) == Range(Words(n, "requiredextensions"))
LangOf(n) == LET s == SelectSeq(n.a, LAMBDA a : a.ns = "xml" /\ a.n = "lang") IN IF s = <<>> THEN "" ELSE Last(s).s
Item(n, prefixes) ==
  [oid |-> Uint(n, "objectid"), tr |-> Matrix(n, "transform"), pn |-> Str(n, "partnumber"),
   meta |-> MetaGroup(Kids(n, "core", "metadatagroup"), prefixes), attrs |-> Groups(Foreign(n), "item")]

NoResources == [attrs |-> <<>>, assets |-> <<>>, objects |-> <<>>]
Empty == [lang |-> "", unit |-> "millimeter", thumb |-> "", exts |-> <<>>, meta |-> <<>>, res |-> NoResources,
          build |-> [attrs |-> <<>>, items |-> <<>>], any |-> <<>>, attrs |-> <<>>]

RootVal(t) ==
  IF ~IsModel(t) THEN Empty ELSE
  LET b == Kids(t, "core", "build") pre == DeclPrefixes(t) IN
  [lang |-> LangOf(t), unit |-> Enum(t, {"unit"}, Units, "millimeter"), thumb |-> Str(t, "thumbnail"),
   exts |-> Map(Decls(t), LAMBDA d : [ns |-> d.s, p |-> d.n, req |-> d.n \in Required(t)]),
   meta |-> Map(Kids(t, "core", "metadata"), LAMBDA n : MetaVal(n, pre)),
   res |-> ResourcesOf(Kids(t, "core", "resources"), pre),
   build |-> [attrs |-> Groups(AttrsOf(b), "build"), items |-> Map(AllKids(b, "core", "item"), LAMBDA n : Item(n, pre))],
   any |-> Anys(t), attrs |-> Groups(SelectSeq(t.a, LAMBDA a : a.ns \notin {"", "xmlns", "xml"}), "model")]
RootErrs(t) ==
  IF ~IsModel(t) THEN {} ELSE
  In("core", t, "/model") \cup ResourcesErrs(Kids(t, "core", "resources")) \cup AnysErrs(t, "/model")
  \cup Each(Kids(t, "core", "build"), LAMBDA b, i : In("core", b, "/model/build"))
  \cup Each(AllKids(Kids(t, "core", "build"), "core", "item"), LAMBDA n, i : In("core", n, Nth("/model/build", "item", i)))

ChildVal(t) ==
  IF ~IsModel(t) THEN [res |-> NoResources, any |-> <<>>]
  ELSE [res |-> ResourcesOf(Kids(t, "core", "resources"), DeclPrefixes(t)), any |-> Anys(t)]
ChildErrs(t) == IF ~IsModel(t) THEN {} ELSE ResourcesErrs(Kids(t, "core", "resources")) \cup AnysErrs(t, "/model")

(* Errors in the order in which they are met.                                                            *)
InOrder(E) == LET s == SetToSortSeq(E, LAMBDA p, q : p.o < q.o \/ (p.o = q.o /\ p.i < q.i)) IN
              [i \in DOMAIN s |-> [x |-> s[i].x, p |-> "", c |-> s[i].c]]
===========================================================================
