------------------------------- MODULE MC_Odd -------------------------------
(* Every element of every vocabulary inside every element that has a meaning, with any attribute of any    *)
(* vocabulary, once or twice. All are well-formed documents: the decoder has to come to an end without an  *)
(* error about their form, and to the value that the document denotes.                                     *)
EXTENDS Codec, Json
CONSTANT Deep
VARIABLES at, el, attr, twice, inner

U == "http://x.org/one"
E(ns, n) == <<ns, n>>
M == <<E("core", "model")>>
R == Append(M, E("core", "resources"))
O == Append(R, E("core", "object"))
ME == Append(O, E("core", "mesh"))
C(n) == E("core", n)
Places == { <<>>, M, R, O, ME, Append(ME, C("vertices")), ME \o <<C("vertices"), C("vertex")>>, Append(ME, C("triangles")), ME \o <<C("triangles"), C("triangle")>>,
  Append(O, C("components")), O \o <<C("components"), C("component")>>, Append(O, C("metadatagroup")), Append(R, C("basematerials")), R \o <<C("basematerials"), C("base")>>,
  Append(M, C("metadata")), Append(M, C("build")), M \o <<C("build"), C("item")>>, M \o <<C("build"), C("item"), C("metadatagroup")>>,
  Append(R, E("m", "colorgroup")), R \o <<E("m", "colorgroup"), E("m", "color")>>, Append(R, E("m", "texture2d")), Append(R, E("m", "texture2dgroup")),
  R \o <<E("m", "texture2dgroup"), E("m", "tex2coord")>>, Append(R, E("m", "compositematerials")), R \o <<E("m", "compositematerials"), E("m", "composite")>>,
  Append(R, E("m", "multiproperties")), R \o <<E("m", "multiproperties"), E("m", "multi")>>,
  Append(R, E("s", "slicestack")), R \o <<E("s", "slicestack"), E("s", "slice")>>, R \o <<E("s", "slicestack"), E("s", "sliceref")>>,
  R \o <<E("s", "slicestack"), E("s", "slice"), E("s", "vertices")>>, R \o <<E("s", "slicestack"), E("s", "slice"), E("s", "vertices"), E("s", "vertex")>>,
  R \o <<E("s", "slicestack"), E("s", "slice"), E("s", "polygon")>>, R \o <<E("s", "slicestack"), E("s", "slice"), E("s", "polygon"), E("s", "segment")>>,
  Append(ME, E("b", "beamlattice")), ME \o <<E("b", "beamlattice"), E("b", "beams")>>, ME \o <<E("b", "beamlattice"), E("b", "beams"), E("b", "beam")>>,
  ME \o <<E("b", "beamlattice"), E("b", "beamsets")>>, ME \o <<E("b", "beamlattice"), E("b", "beamsets"), E("b", "beamset")>>,
  ME \o <<E("b", "beamlattice"), E("b", "beamsets"), E("b", "beamset"), E("b", "ref")>>,
  Append(M, E(U, "thing")), Append(R, E(U, "thing")), R \o <<E(U, "thing"), E(U, "thing")>>, Append(ME, E(U, "thing")), Append(M, C("bogus")), Append(R, E("m", "bogus")) }

Vocab == {C(n) : n \in {"model", "resources", "object", "mesh", "vertices", "vertex", "triangles", "triangle", "components", "component", "build", "item", "metadatagroup", "metadata", "basematerials", "base", "bogus"}}
  \cup {E("m", n) : n \in MaterialKinds \cup {"color", "tex2coord", "composite", "multi", "bogus"}}
  \cup {E("s", n) : n \in {"slicestack", "slice", "sliceref", "vertices", "vertex", "polygon", "segment", "bogus"}}
  \cup {E("b", n) : n \in {"beamlattice", "beams", "beam", "beamsets", "beamset", "ref", "bogus"}}
  \cup {E("p", "bogus"), E(U, "thing"), E(U, "model"), E("http://x.org/two", "mesh")}

(* The names that mean something, in every other vocabulary.                                               *)
Twins == {E(ns, e[2]) : ns \in {"core", "m", "s", "b", "p", U}, e \in Vocab} \ Vocab

(* Attributes with texts that are no number, so that they count as malformed where a number is expected.   *)
Attrs == { <<>>, <<"", "id">>, <<"", "x">>, <<"", "bogus">>, <<"p", "UUID">>, <<"p", "path">>, <<"p", "bogus">>, <<"s", "slicestackid">>, <<"s", "meshresolution">>, <<"s", "bogus">>,
           <<"m", "bogus">>, <<"b", "bogus">>, <<"core", "bogus">>, <<U, "bogus">>, <<"xml", "lang">>, <<"xml", "space">> }

Init == at \in Places /\ el \in Vocab \cup Twins \cup {<<>>} /\ attr \in (IF el \in Twins THEN {<<>>, <<"", "id">>} ELSE Attrs) /\ twice \in {FALSE}
        /\ inner \in (IF Deep THEN Vocab \cup {<<>>} ELSE {<<>>})
        /\ (el \in Twins => ~Deep)
        /\ (Deep => attr = <<>> /\ el # <<>>)
Next == ~twice /\ ~Deep /\ el # <<>> /\ twice' = TRUE /\ UNCHANGED <<at, el, attr, inner>>

NoNumber == [us |-> <<"!">>, fs |-> <<"!">>, ws |-> <<"v">>, c |-> "!", m |-> <<>>, uu |-> FALSE, b |-> FALSE, colon |-> FALSE, pre |-> "", loc |-> ""]
AttrOf == IF attr = <<>> THEN <<>> ELSE <<[ns |-> attr[1], n |-> attr[2], s |-> "v", u |-> "!", f |-> "!", x |-> NoNumber]>>
(* What the element at the top declares.                                                                   *)
Decl == LET d(p, ns) == [ns |-> IF p = "" THEN "" ELSE "xmlns", n |-> IF p = "" THEN "xmlns" ELSE p, s |-> ns, u |-> "!", f |-> "!", x |-> NoNumber] IN
  <<d("", "http://schemas.microsoft.com/3dmanufacturing/core/2015/02"), d("c", "http://schemas.microsoft.com/3dmanufacturing/core/2015/02"),
    d("m", "http://schemas.microsoft.com/3dmanufacturing/material/2015/02"), d("s", "http://schemas.microsoft.com/3dmanufacturing/slice/2015/07"),
    d("b", "http://schemas.microsoft.com/3dmanufacturing/beamlattice/2017/02"), d("p", "http://schemas.microsoft.com/3dmanufacturing/production/2015/06"),
    d("x", U), d("y", "http://x.org/two")>>
Node(e, o, as, kids) == [t |-> "S", ns |-> e[1], n |-> e[2], o |-> o, a |-> as, c |-> kids]
Inner == LET i == IF inner = <<>> THEN <<>> ELSE <<Node(inner, 90, <<>>, <<>>)>> IN
         IF el = <<>> THEN <<>> ELSE IF twice THEN <<Node(el, 80, AttrOf, i), Node(el, 81, AttrOf, i)>> ELSE <<Node(el, 80, AttrOf, i)>>
Tree == LET F[i \in 1..(Len(at) + 1)] ==
              IF i > Len(at) THEN Inner ELSE <<Node(at[i], i, IF i = Len(at) /\ el = <<>> THEN AttrOf ELSE <<>>, F[i + 1])>>
        IN [i \in DOMAIN F[1] |-> [F[1][i] EXCEPT !.a = Decl \o @]]
(* One element at the top.                                                                                *)
Possible == Len(Tree) = 1
Emit == Possible => PrintT("CASE " \o ToJson([tw |-> el \in Twins /\ attr = <<>> /\ ~twice, tree |-> Tree[1], exp |-> [val |-> RootVal(Tree[1]), errs |-> InOrder(RootErrs(Tree[1]))]]))
=============================================================================
