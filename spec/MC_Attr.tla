------------------------------ MODULE MC_Attr ------------------------------
(* Every combination of absent, explicit (also explicitly the default) and malformed attributes of an      *)
(* element and of the elements around it that give it defaults, in both orders. Each document is printed   *)
(* with the value that it denotes and the malformed attributes in it.                                      *)
EXTENDS Codec, Json
CONSTANT Kinds, Wide
VARIABLES kind, as, rev

None == [us |-> <<"!">>, fs |-> <<"!">>, ws |-> <<"v">>, c |-> "!", m |-> <<>>, uu |-> FALSE, b |-> FALSE, colon |-> FALSE, pre |-> "", loc |-> ""]
V(s, u, f) == [s |-> s, u |-> u, f |-> f, x |-> None]
W(s, x) == [s |-> s, u |-> "!", f |-> "!", x |-> x]
Words0(s) == V(s, "!", "!")
Values(k) ==
  CASE k = "u" -> {V("0", "0", "0"), V("1", "1", "1"), V("x", "!", "!")} \cup (IF Wide THEN {V("07", "7", "7"), V("4294967295", "4294967295", "4.29496730e+09"), V("-1", "!", "-1"), V("", "!", "!")} ELSE {})
    [] k = "f" -> {V("0", "0", "0"), V("1.5", "!", "1.5"), V("x", "!", "!")} \cup (IF Wide THEN {V("2", "2", "2"), V("", "!", "!")} ELSE {})
    [] k = "color" -> {W("#11223344", [None EXCEPT !.c = "11223344"]), W("#aabbcc", [None EXCEPT !.c = "aabbccff"]), Words0("red")}
    [] k = "m" -> {W("1 0 0 0 1 0 0 0 1 0 0 0", [None EXCEPT !.m = IdentityText]), Words0("1 2"),
                   W("2 0 0 0 1 0 0 0 1 5 6 7", [None EXCEPT !.m = <<"2", "0", "0", "0", "1", "0", "0", "0", "1", "5", "6", "7">>])}
    [] k = "us" -> {W("1 0", [None EXCEPT !.us = <<"1", "0">>]), W("x 2", [None EXCEPT !.us = <<"!", "2">>]), W("", [None EXCEPT !.us = <<>>])}
    [] k = "fs" -> {W("1 0.5", [None EXCEPT !.fs = <<"1", "0.5">>]), W("0.5 x y", [None EXCEPT !.fs = <<"0.5", "!", "!">>])}
    [] k = "blend" -> {W("mix multiply", [None EXCEPT !.ws = <<"mix", "multiply">>]), W("bogus multiply", [None EXCEPT !.ws = <<"bogus", "multiply">>])}
    [] k = "uuid" -> {W("01234567-89ab-cdef-0123-456789abcdef", [None EXCEPT !.uu = TRUE]), Words0("x")}
    [] k = "s" -> {Words0("a"), Words0("")}
    [] k = "bool" -> {W("1", [None EXCEPT !.b = TRUE]), W("0", None), W("true", [None EXCEPT !.b = TRUE]), W("no", None)}
    [] k = "name" -> {Words0("Title"), W("x:Title", [None EXCEPT !.colon = TRUE, !.pre = "x", !.loc = "Title"]), W("q:Title", [None EXCEPT !.colon = TRUE, !.pre = "q", !.loc = "Title"])}
    [] k = "req" -> {W("m", [None EXCEPT !.ws = <<"m">>]), W("m\ns", [None EXCEPT !.ws = <<"m", "s">>]), W(" q\tx ", [None EXCEPT !.ws = <<"q", "x">>]), W("", [None EXCEPT !.ws = <<>>])}
    [] k = "unit" -> {Words0("millimeter"), Words0("inch"), Words0("Inch")}
    [] k = "type" -> {Words0("model"), Words0("support"), Words0("")}
    [] k = "res" -> {Words0("fullres"), Words0("lowres"), Words0("other")}
    [] k = "clip" -> {Words0("none"), Words0("inside"), Words0("x")}
    [] k = "cap" -> {Words0("sphere"), Words0("butt"), Words0("x")}
    [] k = "ct" -> {Words0("image/png"), Words0("x")}
    [] k = "tile" -> {Words0("wrap"), Words0("none"), Words0("x")}
    [] k = "filter" -> {Words0("auto"), Words0("nearest"), Words0("x")}

At0(ns, n, k) == [ns |-> ns, n |-> n, k |-> k]
A(n, k) == At0("", n, k)
E(ns, n, l) == [ns |-> ns, n |-> n, l |-> l]
C(n) == E("core", n, <<>>)
U == "http://x.org/one"
Other == At0(U, "w", "s")
Res(s) == <<C("resources")>> \o s
Mesh0(s) == Res(<<C("object"), C("mesh")>> \o s)
Elements(Kind) ==
  CASE Kind = "triangle" -> Res(<<E("core", "object", <<A("pid", "u"), A("pindex", "u")>>), C("mesh"), C("triangles"),
                                 E("core", "triangle", <<A("pid", "u"), A("p1", "u"), A("p2", "u"), A("p3", "u")>>)>>)
    [] Kind = "corner" -> Mesh0(<<C("triangles"), E("core", "triangle", <<A("v1", "u"), A("v2", "u"), A("v3", "u"), Other>>)>>)
    [] Kind = "vertex" -> Mesh0(<<C("vertices"), E("core", "vertex", <<A("x", "f"), A("y", "f"), A("z", "f")>>)>>)
    [] Kind = "object" -> Res(<<E("core", "object", <<A("id", "u"), A("type", "type"), At0("p", "UUID", "uuid"), At0("s", "slicestackid", "u"), At0("s", "meshresolution", "res"), A("pid", "u")>>)>>)
    [] Kind = "names" -> Res(<<E("core", "object", <<A("name", "s"), A("partnumber", "s"), A("thumbnail", "s"), A("pindex", "u"), A("type", "type"), Other>>)>>)
    [] Kind = "component" -> Res(<<C("object"), C("components"), E("core", "component", <<A("objectid", "u"), A("transform", "m"), At0("p", "UUID", "uuid"), At0("p", "path", "s"), Other>>)>>)
    [] Kind = "item" -> <<E("core", "build", <<At0("p", "UUID", "uuid")>>), E("core", "item", <<A("objectid", "u"), A("transform", "m"), A("partnumber", "s"), At0("p", "path", "s"), At0("p", "UUID", "uuid")>>)>>
    [] Kind = "metadata" -> <<E("core", "metadata", <<A("name", "name"), A("type", "s"), A("preserve", "bool")>>)>>
    [] Kind = "base" -> Res(<<E("core", "basematerials", <<A("id", "u"), Other>>), E("core", "base", <<A("name", "s"), A("displaycolor", "color"), Other>>)>>)
    [] Kind = "color" -> Res(<<E("m", "colorgroup", <<A("id", "u")>>), E("m", "color", <<A("color", "color")>>)>>)
    [] Kind = "texture" -> Res(<<E("m", "texture2d", <<A("id", "u"), A("path", "s"), A("contenttype", "ct"), A("tilestyleu", "tile"), A("tilestylev", "tile"), A("filter", "filter")>>)>>)
    [] Kind = "coord" -> Res(<<E("m", "texture2dgroup", <<A("id", "u"), A("texid", "u")>>), E("m", "tex2coord", <<A("u", "f"), A("v", "f")>>)>>)
    [] Kind = "composite" -> Res(<<E("m", "compositematerials", <<A("id", "u"), A("matid", "u"), A("matindices", "us")>>), E("m", "composite", <<A("values", "fs")>>)>>)
    [] Kind = "multi" -> Res(<<E("m", "multiproperties", <<A("id", "u"), A("pids", "us"), A("blendmethods", "blend")>>), E("m", "multi", <<A("pindices", "us")>>)>>)
    [] Kind = "stack" -> Res(<<E("s", "slicestack", <<A("id", "u"), A("zbottom", "f")>>), E("s", "slice", <<A("ztop", "f")>>), E("s", "vertices", <<>>), E("s", "vertex", <<A("x", "f"), A("y", "f")>>)>>)
    [] Kind = "sliceref" -> Res(<<E("s", "slicestack", <<A("id", "u")>>), E("s", "sliceref", <<A("slicestackid", "u"), A("slicepath", "s")>>)>>)
    [] Kind = "segment" -> Res(<<E("s", "slicestack", <<>>), E("s", "slice", <<>>), E("s", "polygon", <<A("startv", "u")>>), E("s", "segment", <<A("v2", "u"), A("pid", "u"), A("p1", "u"), A("p2", "u")>>)>>)
    [] Kind = "beam" -> Mesh0(<<E("b", "beamlattice", <<A("radius", "f"), A("cap", "cap")>>), E("b", "beams", <<>>), E("b", "beam", <<A("r1", "f"), A("r2", "f"), A("cap1", "cap"), A("cap2", "cap")>>)>>)
    [] Kind = "ends" -> Mesh0(<<E("b", "beamlattice", <<>>), E("b", "beams", <<>>), E("b", "beam", <<A("v1", "u"), A("v2", "u")>>)>>)
    [] Kind = "lattice" -> Mesh0(<<E("b", "beamlattice", <<A("minlength", "f"), A("precision", "f"), A("clippingmode", "clip"), A("clipping", "clip"), A("clippingmesh", "u"), A("representationmesh", "u")>>)>>)
    [] Kind = "set" -> Mesh0(<<E("b", "beamlattice", <<>>), E("b", "beamsets", <<>>), E("b", "beamset", <<A("name", "s"), A("identifier", "s")>>), E("b", "ref", <<A("index", "u")>>)>>)
    [] Kind = "unknown" -> Res(<<E(U, "thing", <<A("id", "u"), Other, A("z", "s")>>)>>)
    [] Kind = "model" -> <<>>
Root(Kind) == E("core", "model", IF Kind = "model" THEN <<A("unit", "unit"), A("thumbnail", "s"), A("requiredextensions", "req"), At0("xml", "lang", "s"), Other>> ELSE <<>>)
Path(k) == <<Root(k)>> \o Elements(k)

(* All ways to give some of the attributes of one element, in order.                                       *)
Given(l) ==
  LET F[k \in 0..Len(l)] == IF k = 0 THEN {<<>>}
        ELSE UNION {{Append(p, [ns |-> l[k].ns, n |-> l[k].n, s |-> v.s, u |-> v.u, f |-> v.f, x |-> v.x]) : p \in F[k - 1]} : v \in Values(l[k].k)} \cup F[k - 1]
  IN F[Len(l)]
All(path) == LET F[k \in 0..Len(path)] == IF k = 0 THEN {<<>>} ELSE {Append(p, c) : p \in F[k - 1], c \in Given(path[k].l)} IN F[Len(path)]

Init == kind \in Kinds /\ as \in All(Path(kind)) /\ rev \in BOOLEAN
Next == UNCHANGED <<kind, as, rev>>

Decl == LET d(p, ns) == [ns |-> IF p = "" THEN "" ELSE "xmlns", n |-> IF p = "" THEN "xmlns" ELSE p, s |-> ns, u |-> "!", f |-> "!", x |-> None] IN
  <<d("", "http://schemas.microsoft.com/3dmanufacturing/core/2015/02"),
    d("m", "http://schemas.microsoft.com/3dmanufacturing/material/2015/02"), d("s", "http://schemas.microsoft.com/3dmanufacturing/slice/2015/07"),
    d("b", "http://schemas.microsoft.com/3dmanufacturing/beamlattice/2017/02"), d("p", "http://schemas.microsoft.com/3dmanufacturing/production/2015/06"),
    d("x", U)>>
Attrs(k) == LET l == IF rev THEN Reverse(as[k]) ELSE as[k] IN IF k = 1 THEN Decl \o l ELSE l
Tree == LET path == Path(kind)
            F[k \in 1..(Len(path) + 1)] ==
              IF k > Len(path) THEN <<>> ELSE <<[t |-> "S", ns |-> path[k].ns, n |-> path[k].n, o |-> k, a |-> Attrs(k), c |-> F[k + 1]]>>
        IN F[1][1]

Emit == LET t == Tree IN PrintT("CASE " \o ToJson([tree |-> Keep(t), exp |-> [val |-> RootVal(t), errs |-> InOrder(RootErrs(t))]]))
=============================================================================
