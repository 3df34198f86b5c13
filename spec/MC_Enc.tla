------------------------------- MODULE MC_Enc -------------------------------
(* Every small combination of values that have defaults: properties of triangles within an object, radii  *)
(* and caps of beams within a lattice, properties of segments, content of objects, production and slice   *)
(* attributes, placement of metadata groups. Each model is printed with the model it must become.        *)
EXTENDS Norm, Json
CONSTANT Kind, Wide
VARIABLE model

U == {"0", "1", "2"}
B == {"0", "1"}
NoGroup == [md |-> <<>>, attrs |-> <<>>]
Obj(pid, pidx, mesh, comps, attrs, meta) ==
  [id |-> "1", name |-> "", pn |-> "", thumb |-> "", pid |-> pid, pidx |-> pidx, type |-> "model", meta |-> meta, mesh |-> mesh, comps |-> comps, attrs |-> attrs]
MeshOf(ts, any) == [attrs |-> <<>>, vattrs |-> <<>>, tattrs |-> <<>>, vs |-> <<>>, ts |-> ts, any |-> any]
Exts == <<[ns |-> "http://schemas.microsoft.com/3dmanufacturing/slice/2015/07", p |-> "s", req |-> FALSE],
          [ns |-> "http://schemas.microsoft.com/3dmanufacturing/beamlattice/2017/02", p |-> "b", req |-> TRUE],
          [ns |-> "http://schemas.microsoft.com/3dmanufacturing/production/2015/06", p |-> "p", req |-> FALSE],
          [ns |-> "http://schemas.microsoft.com/3dmanufacturing/material/2015/02", p |-> "m", req |-> FALSE]>>
Model(assets, objects, items, battrs) ==
  [Empty EXCEPT !.exts = Exts, !.res = [attrs |-> <<>>, assets |-> assets, objects |-> objects], !.build = [attrs |-> battrs, items |-> items]]
Tris == [v : {<<"0", "1", "2">>}, pid : U, p : B \X B \X B, attrs : {<<>>}]
Uuid == "01234567-89ab-cdef-0123-456789abcdef"
Md == [ns |-> "", n |-> "Title", val |-> "v", type |-> "", pres |-> FALSE]
Groups0 == {NoGroup, [md |-> <<Md>>, attrs |-> <<>>], [md |-> <<[Md EXCEPT !.ns = "p"]>>, attrs |-> <<[k |-> "u", ns |-> "", a |-> <<[ns |-> "", n |-> "w", s |-> "1"]>>]>>],
            [md |-> <<>>, attrs |-> <<[k |-> "u", ns |-> "", a |-> <<[ns |-> "", n |-> "w", s |-> "1"]>>]>>]}
Caps2 == {"sphere", "butt"}
Item0 == [oid |-> "1", tr |-> <<>>, pn |-> "", meta |-> NoGroup, attrs |-> <<>>]
Segs == [v2 : B, pid : B, p1 : B, p2 : B]

Models ==
  CASE Kind = "tri" -> {Model(<<>>, <<Obj(pid, pidx, <<MeshOf(ts, <<>>)>>, <<>>, <<>>, NoGroup)>>, <<>>, <<>>)
                          : pid \in U, pidx \in B, ts \in IF Wide THEN Tris \X Tris ELSE {<<t>> : t \in Tris}}
    [] Kind = "beam" -> {Model(<<>>, <<Obj("0", "0", <<MeshOf(<<>>,
                             <<[k |-> "bl", clip |-> clip, cm |-> cm, rm |-> "0", minl |-> "1", rad |-> rad, cap |-> cap,
                                beams |-> <<[v |-> <<"0", "1">>, r |-> <<r1, r2>>, cap |-> <<c1, c2>>]>>, sets |-> sets]>>)>>, <<>>, <<>>, NoGroup)>>, <<>>, <<>>)
                          : clip \in {"none", "inside"}, cm \in B, rad \in U, r1 \in U, r2 \in U, cap \in Caps2, c1 \in Caps2, c2 \in Caps2,
                            sets \in IF Wide THEN {<<>>, <<[name |-> "", ident |-> "", refs |-> <<>>]>>, <<[name |-> "n", ident |-> "", refs |-> <<"0", "0">>]>>} ELSE {<<>>}}
    [] Kind = "seg" -> {Model(<<[k |-> "stack", id |-> "1", zb |-> zb, slices |-> <<[zt |-> "1", vs |-> <<>>, ps |-> <<[sv |-> "0", segs |-> ss]>>]>>, refs |-> <<>>]>>, <<>>, <<>>, <<>>)
                          : zb \in B, ss \in Segs \X Segs}
    [] Kind = "obj" -> {Model(<<>>, <<Obj(pid, pidx, mesh, comps, attrs, meta)>>, <<[Item0 EXCEPT !.meta = imeta, !.attrs = iattrs]>>, battrs)
                          : pid \in B, pidx \in B, mesh \in {<<>>, <<MeshOf(<<>>, <<>>)>>}, comps \in {<<>>, <<[attrs |-> <<>>, list |-> <<>>]>>},
                            attrs \in {<<>>, <<[k |-> "sobj", id |-> "0", res |-> "fullres"]>>, <<[k |-> "pobj", uuid |-> ""], [k |-> "sobj", id |-> "1", res |-> "lowres"]>>},
                            meta \in Groups0, imeta \in IF Wide THEN Groups0 ELSE {NoGroup},
                            iattrs \in {<<>>, <<[k |-> "pitem", uuid |-> "", path |-> ""]>>, <<[k |-> "pitem", uuid |-> Uuid, path |-> ""]>>, <<[k |-> "pitem", uuid |-> "", path |-> "/a.model"]>>},
                            battrs \in {<<>>, <<[k |-> "pbuild", uuid |-> ""]>>, <<[k |-> "pbuild", uuid |-> Uuid]>>}}

Init == model \in Models
Next == UNCHANGED model

(* What has been read does not change any more when it is written again.                                 *)
Idempotent == ModelNorm(ModelNorm(model)) = ModelNorm(model)
(* Explicit properties survive.                                                                          *)
Explicit == \A o \in Range(model.res.objects) : \A m \in Range(o.mesh) : \A i \in DOMAIN m.ts :
              m.ts[i].pid # "0" => TriangleNorm(m.ts[i], o) = m.ts[i]
Emit == PrintT("CASE " \o ToJson([in |-> model, exp |-> ModelNorm(model)]))
=============================================================================
