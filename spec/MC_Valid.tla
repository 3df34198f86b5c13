------------------------------ MODULE MC_Valid ------------------------------
(* All models at most Depth edits away from a model without violations. Each edit changes one place to one *)
(* of a few values, on both sides of the bound of the rules about it. Area chooses what is edited.         *)
EXTENDS Valid, Json

CONSTANTS Area, Depth

---------------------------------------------------------------------------
(* Constructors.                                                                                           *)
NoGroup == [md |-> <<>>, attrs |-> <<>>]
Object0 == [id |-> 0, name |-> "", pn |-> "", thumb |-> "", pid |-> 0, pidx |-> 0, type |-> "model", meta |-> NoGroup, mesh |-> <<>>, comps |-> <<>>, attrs |-> <<>>]
Tri(a, b, c, pid, p) == [v |-> <<a, b, c>>, pid |-> pid, p |-> p, attrs |-> <<>>]
Tetra(pid, p) == [attrs |-> <<>>, vattrs |-> <<>>, tattrs |-> <<>>, vs |-> <<<<0, 0, 0>>, <<9, 0, 0>>, <<0, 9, 0>>, <<0, 0, 9>>>>,
                  ts |-> <<Tri(0, 2, 1, pid, p), Tri(0, 1, 3, pid, p), Tri(1, 2, 3, pid, p), Tri(2, 0, 3, 0, <<0, 0, 0>>)>>, any |-> <<>>]
MeshObj(id, pid, pidx, tpid, p) == [Object0 EXCEPT !.id = id, !.pid = pid, !.pidx = pidx, !.mesh = <<Tetra(tpid, p)>>]
Comp(oid, path) == [oid |-> oid, tr |-> <<>>, attrs |-> IF path = "" THEN <<>> ELSE <<[k |-> "pcomp", uuid |-> "", path |-> path]>>]
CompObj(id, list) == [Object0 EXCEPT !.id = id, !.comps = <<[attrs |-> <<>>, list |-> list]>>]
Item(oid, path) == [oid |-> oid, tr |-> <<>>, pn |-> "", meta |-> NoGroup, attrs |-> IF path = "" THEN <<>> ELSE <<[k |-> "pitem", uuid |-> "", path |-> path]>>]
Mats(n) == [i \in 1..n |-> [name |-> "m" \o ToString(i), color |-> "0a0b0cff", attrs |-> <<>>]]
BaseM(id, n) == [k |-> "base", id |-> id, mats |-> Mats(n), attrs |-> <<>>]
Ext(ns, p, req) == [ns |-> ns, p |-> p, req |-> req]
Res(assets, objects) == [attrs |-> <<>>, assets |-> assets, objects |-> objects]
Child(path, res) == [path |-> path, res |-> res, any |-> <<>>, rels |-> <<>>]
Rel(path, type) == [path |-> path, type |-> type, id |-> ""]
Att(path, ct) == [path |-> path, ct |-> ct, data |-> "x"]
Md(ns, n) == [ns |-> ns, n |-> n, val |-> "v", type |-> "", pres |-> FALSE]
Model(exts, res, items, childs) ==
  [path |-> "", lang |-> "", unit |-> "millimeter", thumb |-> "", exts |-> exts, meta |-> <<>>, res |-> res, build |-> [attrs |-> <<>>, items |-> items], any |-> <<>>,
   attrs |-> <<>>, childs |-> childs, rels |-> <<>>, rrels |-> <<>>, atts |-> <<>>]

C == "/3D/c.model"
Vendor == "http://vendor.example/v"
ModelType == "http://schemas.microsoft.com/3dmanufacturing/2013/01/3dmodel"
ThumbType == "http://schemas.openxmlformats.org/package/2006/relationships/metadata/thumbnail"
Id1 == "123e4567-e89b-12d3-a456-426614174000"
Id2 == "{123E4567-E89B-12D3-A456-426614174000}"
NotIds == {"", "123e4567-e89b-12d3-a456-42661417400", "zz"}

---------------------------------------------------------------------------
Prefix(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
(* Edits. Change(s, e(_)) is the set of sequences with one element of s edited.                             *)
Change(s, e(_)) == UNION {{[s EXCEPT ![i] = v] : v \in e(s[i])} : i \in DOMAIN s}
Drop(s) == {SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)) : i \in DOMAIN s}
Twice(s) == {Append(s, s[i]) : i \in DOMAIN s}
InParts(m, e(_)) == {[m EXCEPT !.res = r] : r \in e(m.res)} \cup {[m EXCEPT !.childs = cs] : cs \in Change(m.childs, LAMBDA c : {[c EXCEPT !.res = r] : r \in e(c.res)})}
InAssets(m, e(_)) == InParts(m, LAMBDA r : {[r EXCEPT !.assets = a] : a \in Change(r.assets, e)})
InObjects(m, e(_)) == InParts(m, LAMBDA r : {[r EXCEPT !.objects = o] : o \in Change(r.objects, e)})
InMesh(o, e(_)) == {[o EXCEPT !.mesh = g] : g \in Change(o.mesh, e)}
InComps(o, e(_)) == {[o EXCEPT !.comps = g] : g \in Change(o.comps, LAMBDA x : {[x EXCEPT !.list = l] : l \in Change(x.list, e)})}
InItems(m, e(_)) == {[m EXCEPT !.build.items = s] : s \in Change(m.build.items, e)}
SetPath(x, kind, path) == [x EXCEPT !.attrs = IF path = "" THEN <<>> ELSE <<[k |-> kind, uuid |-> "", path |-> path]>>]

(* ---- core: resources and build                                                                          *)
CoreBase == [Model(<<>>, Res(<<BaseM(1, 2), BaseM(2, 1)>>, <<MeshObj(3, 1, 1, 2, <<0, 0, 0>>), CompObj(4, <<Comp(3, ""), Comp(3, C)>>)>>),
                   <<Item(4, ""), Item(3, C)>>, <<Child(C, Res(<<BaseM(1, 1), BaseM(5, 2)>>, <<MeshObj(3, 5, 0, 5, <<0, 1, 0>>), CompObj(6, <<Comp(3, "")>>)>>))>>)
             EXCEPT !.exts = <<Ext(Vendor, "v", FALSE)>>]
CoreEdits(m) ==
  InObjects(m, LAMBDA o :
      {[o EXCEPT !.id = v] : v \in {0, 1, 3, 4}} \cup {[o EXCEPT !.pid = v] : v \in {0, 1, 2, 5}} \cup {[o EXCEPT !.pidx = v] : v \in {0, 1, 2}}
      \cup {[o EXCEPT !.type = v] : v \in {"other", "support", "solidsupport"}}
      \cup {[o EXCEPT !.mesh = <<>>], [o EXCEPT !.comps = <<[attrs |-> <<>>, list |-> <<>>]>>], [o EXCEPT !.mesh = <<Tetra(0, <<0, 0, 0>>)>>]}
      \cup InMesh(o, LAMBDA g : {[g EXCEPT !.vs = Prefix(g.vs, n)] : n \in {2, 3}} \cup {[g EXCEPT !.ts = Prefix(g.ts, 3)]}
             \cup {[g EXCEPT !.ts[i].v[k] = v] : i \in {2} \cap DOMAIN g.ts, k \in 1..3, v \in {0, 3, 4}}
             \cup {[g EXCEPT !.ts[i].pid = v] : i \in {1, 3} \cap DOMAIN g.ts, v \in {0, 1, 5, 7}}
             \cup {[g EXCEPT !.ts[i].p[k] = v] : i \in {1} \cap DOMAIN g.ts, k \in 1..3, v \in {1, 2}})
      \cup InComps(o, LAMBDA x : {[x EXCEPT !.oid = v] : v \in {0, 3, 4, 6, 9}} \cup {SetPath(x, "pcomp", v) : v \in {"", C, Default, "/none.model"}}))
  \cup InItems(m, LAMBDA x : {[x EXCEPT !.oid = v] : v \in {0, 3, 4, 6, 9}} \cup {SetPath(x, "pitem", v) : v \in {"", C, Default, "/none.model"}})
  \cup InAssets(m, LAMBDA a : {[a EXCEPT !.id = v] : v \in {0, 1, 3, 5}} \cup {[a EXCEPT !.mats = Mats(n)] : n \in 0..3}
             \cup (IF a.mats = <<>> THEN {} ELSE {[a EXCEPT !.mats[Len(a.mats)].name = ""], [a EXCEPT !.mats[Len(a.mats)].color = "00000000"], [a EXCEPT !.mats[1].color = "000000ff"]}))
  \cup {[m EXCEPT !.path = v] : v \in {C, "/x.model"}}

(* ---- core: package and metadata                                                                         *)
PackBase ==
  [CoreBase EXCEPT !.exts = <<Ext(Vendor, "v", FALSE), Ext(URL.m, "m", TRUE)>>,
     !.meta = <<Md("", "Title"), Md(Vendor, "Title")>>,
     !.rrels = <<Rel(Default, ModelType), Rel("/T.png", ThumbType)>>,
     !.rels = <<Rel("/P/ticket.xml", Ticket), Rel(C, ModelType), Rel("/t.png", ThumbType)>>,
     !.childs[1].rels = <<Rel("/t.png", ThumbType)>>,
     !.atts = <<Att("/t.png", "image/png"), Att("/P/Ticket.xml", TicketCT)>>,
     !.build.items[2].meta.md = <<Md("", "Designer"), Md("", "rating")>>,
     !.res.objects[2].meta.md = <<Md("", "DESCRIPTION")>>,
     !.childs[1].res.objects[1].meta.md = <<Md(Vendor, "x"), Md("", "Copyright")>>]
MetaEdits(md) == Change(md, LAMBDA d : {[d EXCEPT !.n = v] : v \in {"", "Title", "titles", "Rating"}} \cup {[d EXCEPT !.ns = v] : v \in {"", Vendor, URL.m, "http://none"}}) \cup Twice(md)
RelEdits(rels) == Change(rels, LAMBDA r : {[r EXCEPT !.path = v] : v \in {"", "t.png", "/T.PNG", "/t.png", "/.t.png", "/a/..", "/none.png", C, Default, "/P/ticket.xml", "/p/TICKET.xml"}}
                                          \cup {[r EXCEPT !.type = v] : v \in {Ticket, ThumbType, ModelType}}) \cup Twice(rels)
PackEdits(m) ==
  {[m EXCEPT !.rrels = v] : v \in RelEdits(m.rrels)} \cup {[m EXCEPT !.rels = v] : v \in RelEdits(m.rels)}
  \cup {[m EXCEPT !.childs[1].rels = v] : v \in RelEdits(m.childs[1].rels)}
  \cup {[m EXCEPT !.childs[1].path = v] : v \in {Default, "/3D/C.model"}} \cup {[m EXCEPT !.path = v] : v \in {C, "/x.model"}}
  \cup {[m EXCEPT !.atts = v] : v \in Drop(m.atts) \cup Change(m.atts, LAMBDA a : {[a EXCEPT !.ct = v] : v \in {"image/png", TicketCT, "application/vnd.ms-printing.printticket+XML"}})}
  \cup {[m EXCEPT !.meta = v] : v \in MetaEdits(m.meta)}
  \cup InItems(m, LAMBDA x : {[x EXCEPT !.meta.md = v] : v \in MetaEdits(x.meta.md)})
  \cup InObjects(m, LAMBDA o : {[o EXCEPT !.meta.md = v] : v \in MetaEdits(o.meta.md)})
  \cup {[m EXCEPT !.exts = v] : v \in Drop(m.exts) \cup Twice(m.exts) \cup Change(m.exts, LAMBDA e : {[e EXCEPT !.req = v] : v \in BOOLEAN} \cup {[e EXCEPT !.ns = v] : v \in {URL.p, "http://other"}})}

(* ---- materials                                                                                          *)
ColorG(id, n) == [k |-> "color", id |-> id, cs |-> [i \in 1..n |-> "0102030" \o ToString(i)]]
Tex(id, path) == [k |-> "tex", id |-> id, path |-> path, ct |-> "image/png", u |-> "wrap", v |-> "wrap", f |-> "auto"]
TexG(id, tid, n) == [k |-> "texg", id |-> id, tid |-> tid, cs |-> [i \in 1..n |-> <<i, i>>]]
CompM(id, mid, idx, n) == [k |-> "comp", id |-> id, mid |-> mid, idx |-> idx, vals |-> [i \in 1..n |-> [j \in DOMAIN idx |-> 1]]]
MultiP(id, pids, blends, ms) == [k |-> "multi", id |-> id, pids |-> pids, blends |-> blends, ms |-> ms]
MatRes(f) == Res(<<BaseM(1, 2), ColorG(2, 3), Tex(3, "/3D/T.png"), TexG(4, 3, 2), CompM(5, 1, <<0, 1>>, 2), MultiP(6, <<5, 2, 4>>, <<"mix", "multiply">>, f)>>,
                 <<MeshObj(8, 6, 1, 4, <<0, 1, 0>>)>>)
MatBase == [Model(<<Ext(URL.m, "m", FALSE)>>, MatRes(<<<<0, 1, 1>>, <<1, 2, 0>>>>), <<Item(8, "")>>,
                  <<Child(C, Res(<<BaseM(1, 1), ColorG(2, 1), MultiP(7, <<1, 2>>, <<"mix">>, <<<<0, 0>>>>), CompM(9, 1, <<0>>, 1)>>, <<>>))>>)
            EXCEPT !.atts = <<Att("/3D/t.PNG", "image/png")>>]
MatAsset(a) ==
  {[a EXCEPT !.id = v] : v \in {0, 1, 2}}
  \cup (CASE a.k = "base" -> {[a EXCEPT !.mats = Mats(n)] : n \in {0, 1, 3}}
          [] a.k = "color" -> {[a EXCEPT !.cs = [i \in 1..n |-> "01020304"]] : n \in {0, 1, 2}} \cup {[a EXCEPT !.cs = Append(a.cs, NoColor)]}
          [] a.k = "tex" -> {[a EXCEPT !.path = v] : v \in {"", "/3d/t.png", "/3D/t2.png", "/Other/T.png", "/3D/Sub/T.png", "T.png", "/3D/T.pn", "/3D/T.png/"}} \cup {[a EXCEPT !.ct = v] : v \in {"", "image/jpeg"}}
          [] a.k = "texg" -> {[a EXCEPT !.tid = v] : v \in {0, 2, 3, 9}} \cup {[a EXCEPT !.cs = Prefix(a.cs, n)] : n \in {0, 1}}
          [] a.k = "comp" -> {[a EXCEPT !.mid = v] : v \in {0, 1, 2, 9}} \cup {[a EXCEPT !.idx = v] : v \in {<<>>, <<1>>, <<2, 0>>, <<0, 2>>, <<0, 0, 3>>}}
                             \cup {[a EXCEPT !.vals = <<>>]}
          [] a.k = "multi" -> {[a EXCEPT !.pids = v] : v \in Drop(a.pids) \cup Change(a.pids, LAMBDA p : {1, 2, 3, 4, 5, 6, 9}) \cup {Append(a.pids, v) : v \in {2, 4}} \cup {<<>>}}
                              \cup {[a EXCEPT !.blends = v] : v \in {<<>>, <<"mix">>, <<"mix", "mix", "mix">>, <<"mix", "mix", "mix", "mix">>}}
                              \cup {[a EXCEPT !.ms = v] : v \in {<<>>} \cup Change(a.ms, LAMBDA g : {[g EXCEPT ![i] = v] : i \in DOMAIN g, v \in 0..3} \cup {<<>>, Append(g, 9), <<3, 3, 3>>})}
          [] OTHER -> {})
MatEdits(m) ==
  InAssets(m, MatAsset) \cup {[m EXCEPT !.atts = <<>>]} \cup {[m EXCEPT !.exts = <<>>], [m EXCEPT !.exts = <<Ext(URL.m, "m", TRUE)>>]}
  \cup InParts(m, LAMBDA r : {[r EXCEPT !.assets = a] : a \in Drop(r.assets)})
  \cup InObjects(m, LAMBDA o : {[o EXCEPT !.pid = v] : v \in {2, 3, 4, 5}} \cup {[o EXCEPT !.pidx = v] : v \in {2, 3}}
                               \cup InMesh(o, LAMBDA g : {[g EXCEPT !.ts[2].pid = v] : v \in {2, 3, 5, 6}} \cup {[g EXCEPT !.ts[2].p[2] = v] : v \in {2, 3}}))

(* ---- slices                                                                                             *)
Seg(v) == [v2 |-> v, pid |-> 0, p1 |-> 0, p2 |-> 0]
Square == <<[sv |-> 0, segs |-> <<Seg(1), Seg(2), Seg(0)>>]>>
Slc(z) == [zt |-> z, vs |-> <<<<0, 0>>, <<1, 0>>, <<1, 1>>>>, ps |-> Square]
StackA(id, zb, zs) == [k |-> "stack", id |-> id, zb |-> zb, slices |-> [i \in DOMAIN zs |-> Slc(zs[i])], refs |-> <<>>]
StackR(id, refs) == [k |-> "stack", id |-> id, zb |-> 0, slices |-> <<>>, refs |-> refs]
SRef(id, path) == [id |-> id, path |-> path]
SObj(id, res) == <<[k |-> "sobj", id |-> id, res |-> res]>>
D == "/3D/d.model"
SliceBase ==
  Model(<<Ext(URL.s, "s", TRUE)>>,
        Res(<<StackR(1, <<SRef(1, C), SRef(2, C)>>), StackA(2, 1, <<1, 2, 3>>), BaseM(7, 1)>>,
            <<[MeshObj(3, 0, 0, 0, <<0, 0, 0>>) EXCEPT !.attrs = SObj(1, "lowres")], [MeshObj(4, 0, 0, 0, <<0, 0, 0>>) EXCEPT !.attrs = SObj(2, "fullres")],
              CompObj(5, <<Comp(4, ""), Comp(3, C)>>)>>),
        <<Item(3, ""), Item(5, ""), Item(4, C)>>,
        <<Child(C, Res(<<StackA(1, 1, <<2, 3>>), StackA(2, 0, <<4, 5>>)>>,
                       <<[MeshObj(3, 0, 0, 0, <<0, 0, 0>>) EXCEPT !.attrs = SObj(1, "fullres")], CompObj(4, <<Comp(3, "")>>)>>)),
          Child(D, Res(<<StackA(1, 0, <<6>>)>>, <<>>))>>)
Trs == {<<0, 2, 0, 3, 0, 0, 0, 0, 1, 5, 6, 7>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 1, 0, 1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, 1, 1, 0, 0, 1, 0, 0, 0>>,
        <<1, 0, 0, 0, 1, 0, 1, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, 1, 0, 0, 1, 1, 0, 0, 0>>, <<1, 0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0>>}
StackEdits(a) ==
  IF a.k # "stack" THEN {} ELSE
  {[a EXCEPT !.zb = v] : v \in {0, 2, 3}}
  \cup {[a EXCEPT !.refs = v] : v \in {<<>>, <<SRef(1, D)>>, <<SRef(1, C), SRef(1, D)>>, <<SRef(2, C), SRef(1, C)>>, <<SRef(2, C), SRef(2, C)>>} \cup Drop(a.refs)
           \cup Change(a.refs, LAMBDA r : {[r EXCEPT !.id = v] : v \in {0, 1, 3, 9}} \cup {[r EXCEPT !.path = v] : v \in {"", Default, C, D, "/none.model"}})}
  \cup {[a EXCEPT !.slices = v] : v \in {<<>>, <<Slc(1)>>} \cup Drop(a.slices) \cup
           Change(a.slices, LAMBDA s : {[s EXCEPT !.zt = v] : v \in {0, 1, 2, 4}} \cup {[s EXCEPT !.vs = Prefix(s.vs, n)] : n \in 0..2} \cup
               {[s EXCEPT !.ps = v] : v \in {<<>>, <<[sv |-> 0, segs |-> <<>>]>>, Square \o <<[sv |-> 1, segs |-> <<Seg(1)>>]>>, Square \o <<[sv |-> 1, segs |-> <<Seg(1), Seg(0)>>]>>,
                                             Square \o <<[sv |-> 2, segs |-> <<>>]>>, <<[sv |-> 1, segs |-> <<Seg(0)>>]>>}})}
SliceEdits(m) ==
  InAssets(m, StackEdits)
  \cup InObjects(m, LAMBDA o : {[o EXCEPT !.attrs = v] : v \in {<<>>} \cup {SObj(i, "lowres") : i \in {0, 1, 2, 7, 9}} \cup {SObj(i, "fullres") : i \in {0, 1, 2}}}
        \cup {[o EXCEPT !.type = v] : v \in {"support", "solidsupport", "other"}}
        \cup InComps(o, LAMBDA x : {[x EXCEPT !.tr = t] : t \in Trs} \cup {[x EXCEPT !.oid = v] : v \in {3, 4, 5}} \cup {SetPath(x, "pcomp", v) : v \in {"", C}}))
  \cup InItems(m, LAMBDA x : {[x EXCEPT !.tr = t] : t \in Trs} \cup {[x EXCEPT !.oid = v] : v \in {3, 4}} \cup {SetPath(x, "pitem", v) : v \in {"", C, Default}})
  \cup {[m EXCEPT !.exts = v] : v \in {<<>>, <<Ext(URL.s, "s", FALSE)>>, <<Ext(URL.s, "s", TRUE), Ext(URL.s, "t", FALSE)>>, <<Ext(URL.p, "p", FALSE), Ext(URL.s, "s", FALSE)>>}}

(* ---- beam lattices                                                                                      *)
Beam(a, b, r1, r2) == [v |-> <<a, b>>, r |-> <<r1, r2>>, cap |-> <<"sphere", "sphere">>]
BSet(refs) == [name |-> "", ident |-> "", refs |-> refs]
Lat == [k |-> "bl", clip |-> "inside", cm |-> 1, rm |-> 2, minl |-> 1, rad |-> 2, cap |-> "sphere",
        beams |-> <<Beam(0, 1, 2, 2), Beam(1, 2, 3, 3), Beam(3, 2, 2, 1), Beam(0, 3, 0, 1), Beam(3, 1, 2, 2)>>, sets |-> <<BSet(<<0, 4>>), BSet(<<>>)>>]
Tok == [k |-> "tok", tree |-> [t |-> "S", ns |-> Vendor, n |-> "z", a |-> <<>>, c |-> <<>>]]
LatObj(id, l) == [MeshObj(id, 0, 0, 0, <<0, 0, 0>>) EXCEPT !.mesh[1].any = <<l>>, !.mesh[1].ts = <<>>]
Plain(id) == MeshObj(id, 0, 0, 0, <<0, 0, 0>>)
LatBase == Model(<<Ext(URL.b, "b", TRUE)>>, Res(<<>>, <<Plain(1), Plain(2), LatObj(3, Lat), Plain(4)>>), <<Item(3, "")>>,
                 <<Child(C, Res(<<>>, <<Plain(2), LatObj(5, [Lat EXCEPT !.cm = 2, !.rm = 0, !.beams = <<Beam(0, 1, 2, 2)>>, !.sets = <<BSet(<<0>>)>>])>>))>>)
LatEdits(m) ==
  InObjects(m, LAMBDA o :
     (IF Lattices(o) = <<>> THEN {[o EXCEPT !.mesh = <<>>, !.comps = <<[attrs |-> <<>>, list |-> <<Comp(1, "")>>]>>]} \cup InMesh(o, LAMBDA g : {[g EXCEPT !.any = <<[Lat EXCEPT !.cm = 1, !.rm = 0]>>]})
      ELSE InMesh(o, LAMBDA g : {[g EXCEPT !.any = <<l>>] : l \in
              LET l == Lattices(o)[1] IN
              {[l EXCEPT !.clip = v] : v \in {"none", "outside"}} \cup {[l EXCEPT !.cm = v] : v \in 0..6} \cup {[l EXCEPT !.rm = v] : v \in 0..6}
              \cup {[l EXCEPT !.minl = v] : v \in {0, 2}} \cup {[l EXCEPT !.rad = v] : v \in {0, 3}}
              \cup {[l EXCEPT !.beams = v] : v \in Drop(l.beams) \cup Change(l.beams, LAMBDA b : {[b EXCEPT !.v[k] = v] : k \in 1..2, v \in {0, 3, 4}} \cup {[b EXCEPT !.r[k] = v] : k \in 1..2, v \in {0, 1, 3}})}
              \cup {[l EXCEPT !.sets = v] : v \in Drop(l.sets) \cup Change(l.sets, LAMBDA s : {BSet(<<3>>), BSet(<<4, 4>>), BSet(<<5>>), BSet(<<0, 6, 7>>)})}}
              \cup {[g EXCEPT !.vs = Prefix(g.vs, 3)]}
              \cup {[g EXCEPT !.any = v] : v \in {<<Tok>> \o g.any, g.any \o <<Tok>>, <<Tok>>, <<[Lat EXCEPT !.minl = 0]>> \o g.any, g.any \o <<[Lat EXCEPT !.minl = 0]>>}}))
     \cup {[o EXCEPT !.type = v] : v \in {"support", "solidsupport", "surface", "other"}} \cup {[o EXCEPT !.id = v] : v \in {1, 3, 5}})
  \cup InParts(m, LAMBDA r : {[r EXCEPT !.objects = v] : v \in Drop(r.objects)})
  \cup {[m EXCEPT !.exts = v] : v \in {<<>>, <<Ext(URL.b, "b", FALSE)>>, <<Ext(URL.b, "b", FALSE), Ext(URL.b, "c", FALSE)>>}}

(* ---- production                                                                                         *)
PObj(o) == [o EXCEPT !.attrs = <<[k |-> "pobj", uuid |-> Id1]>>]
PComp(oid, path) == [oid |-> oid, tr |-> <<>>, attrs |-> <<[k |-> "pcomp", uuid |-> Id1, path |-> path]>>]
PItem(oid, path) == [Item(oid, "") EXCEPT !.attrs = <<[k |-> "pitem", uuid |-> Id2, path |-> path]>>]
ProdBase ==
  [Model(<<Ext(URL.p, "p", TRUE)>>, Res(<<>>, <<PObj(Plain(1)), PObj(CompObj(2, <<PComp(1, ""), PComp(3, C)>>))>>), <<PItem(2, ""), PItem(3, C)>>,
         <<Child(C, Res(<<>>, <<PObj(Plain(3)), PObj(CompObj(4, <<PComp(3, ""), PComp(3, "")>>))>>)), Child(D, Res(<<>>, <<PObj(CompObj(1, <<PComp(1, ""), PComp(2, "")>>)), PObj(Plain(2))>>))>>)
   EXCEPT !.build.attrs = <<[k |-> "pbuild", uuid |-> Id1]>>, !.childs[2].res.objects[1].comps[1].list[1].oid = 2]
IdAttrs(k, s) == {<<[k |-> k, uuid |-> v]>> : v \in s} \cup {<<>>}
PathAttrs(k, s, paths) == {<<[k |-> k, uuid |-> v, path |-> p]>> : v \in s, p \in paths} \cup {<<>>}
ProdEdits(m) ==
  {[m EXCEPT !.build.attrs = v] : v \in IdAttrs("pbuild", NotIds \cup {Id2, "urn:uuid:" \o Id1})}
  \cup InItems(m, LAMBDA x : {[x EXCEPT !.attrs = v] : v \in PathAttrs("pitem", NotIds \cup {Id1}, {"", C, Default})})
  \cup InObjects(m, LAMBDA o : {[o EXCEPT !.attrs = v] : v \in IdAttrs("pobj", NotIds \cup {Id2})}
                             \cup InComps(o, LAMBDA x : {[x EXCEPT !.attrs = v] : v \in PathAttrs("pcomp", NotIds \cup {Id2}, {"", C, Default})}))
  \cup {[m EXCEPT !.exts = v] : v \in {<<>>, <<Ext(URL.p, "p", FALSE), Ext(URL.p, "q", FALSE)>>}} \cup {[m EXCEPT !.path = v] : v \in {C, "/r.model"}}

---------------------------------------------------------------------------
Start == CASE Area = "core" -> CoreBase [] Area = "pack" -> PackBase [] Area = "mat" -> MatBase [] Area = "slice" -> SliceBase [] Area = "lat" -> LatBase [] Area = "prod" -> ProdBase
Edits(m) == CASE Area = "core" -> CoreEdits(m) [] Area = "pack" -> PackEdits(m) [] Area = "mat" -> MatEdits(m) [] Area = "slice" -> SliceEdits(m) [] Area = "lat" -> LatEdits(m) [] Area = "prod" -> ProdEdits(m)

VARIABLES m, n
Init == m = Start /\ n = 0
Next == n < Depth /\ n' = n + 1 /\ m' \in Edits(m)
Spec == Init /\ [][Next]_<<m, n>>

(* The model from which the edits start has no violation.                                                  *)
Clean == n = 0 => Errs("written", m) = <<>>
(* Content that no rule is about changes nothing.                                                          *)
Unrelated ==
  LET m2 == [m EXCEPT !.lang = "en", !.atts = Append(@, Att("/Other/unrelated.bin", "application/x")), !.any = <<[k |-> "tok", tree |-> [t |-> "S", ns |-> Vendor, n |-> "z", a |-> <<>>, c |-> <<>>]]>>,
                      !.res.assets = Append(@, [k |-> "unk", id |-> 0, tree |-> [t |-> "S", ns |-> Vendor, n |-> "z", a |-> <<>>, c |-> <<>>]]),
                      !.res.objects = Append(@, [Plain(999) EXCEPT !.type = "support", !.attrs = <<[k |-> "pobj", uuid |-> Id1]>>])]
  IN Bag(Errs("written", m2)) = Bag(Errs("written", m))
(* Violations are found where something is.                                                                *)
Located == LET e == Errs("written", m) IN \A i \in DOMAIN e : e[i].p \in {"", RootPath(m)} \cup {m.childs[k].path : k \in DOMAIN m.childs}

Emit == PrintT("CASE " \o ToJson([m |-> m, exp |-> Errs("written", m), pin |-> Area = "lat" /\ Errs("pinned", m) # Errs("written", m), alt |-> IF Area = "lat" THEN Errs("pinned", m) ELSE <<>>]))
=============================================================================
