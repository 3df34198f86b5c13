-------------------------------- MODULE Tr_RT --------------------------------
(* Judges documents that are decoded and encoded again: out.orig (trees), out.model (decoded), and the   *)
(* answer of the encoding. All that the documents denote must be in the documents written.               *)
EXTENDS Norm, Walk
E == INSTANCE Tr_Enc WITH Judge <- Judge

(* Unknown content by itself: where it stands, in order.                                                 *)
Unknown(gs) == SelectSeq(AttrNorm(gs), LAMBDA g : g.k = "u")
Foreign2(r, any) ==
  [attrs |-> Unknown(r.attrs),
   assets |-> Map(SelectSeq(r.assets, LAMBDA a : a.k = "unk"), LAMBDA a : [id |-> a.id, tree |-> TreeNorm(a.tree)]),
   bases |-> Map(SelectSeq(r.assets, LAMBDA a : a.k = "base"), LAMBDA a : <<Unknown(a.attrs), Map(a.mats, LAMBDA b : Unknown(b.attrs))>>),
   any |-> Map(SelectSeq(any, LAMBDA x : x.k = "tok"), LAMBDA x : TreeNorm(x.tree)),
   objects |-> Map(r.objects, LAMBDA o :
     [attrs |-> Unknown(o.attrs), meta |-> IF o.meta.md = <<>> THEN <<>> ELSE Unknown(o.meta.attrs),
      mesh |-> Map(o.mesh, LAMBDA m : [attrs |-> Unknown(m.attrs), vattrs |-> Unknown(m.vattrs), tattrs |-> Unknown(m.tattrs), ts |-> Map(m.ts, LAMBDA t : Unknown(t.attrs)),
                                       any |-> Map(SelectSeq(m.any, LAMBDA x : x.k = "tok"), LAMBDA x : TreeNorm(x.tree))]),
      comps |-> IF o.mesh # <<>> THEN <<>> ELSE Map(o.comps, LAMBDA x : [attrs |-> Unknown(x.attrs), list |-> Map(x.list, LAMBDA y : Unknown(y.attrs))])])]
Foreign1(m) ==
  [res |-> Foreign2(m.res, m.any), attrs |-> Unknown(m.attrs), build |-> Unknown(m.build.attrs),
   items |-> Map(m.build.items, LAMBDA i : [attrs |-> Unknown(i.attrs), meta |-> IF i.meta.md = <<>> THEN <<>> ELSE Unknown(i.meta.attrs)])]

JudgeRT(c) ==
  LET o == c.out
      orig == RootVal(o.orig[1])
      kids == [i \in 1..(Len(o.orig) - 1) |-> LET v == ChildVal(o.orig[i + 1]) IN [path |-> c.case.parts[i + 1].path, res |-> v.res, any |-> v.any]]
      part(path) == SelectSeq(o.parts, LAMBDA p : p.path = path)[1].tree
      enc == E!Problems(o)
      p == enc
           \cup {"decoded " \o k : k \in {k \in DOMAIN Empty : o.model[k] # orig[k]}}
           \cup (IF \A i \in DOMAIN kids : \A k \in {"path", "res", "any"} : o.model.childs[i][k] = kids[i][k] THEN {} ELSE {"decoded childs"})
           \cup (IF enc # {} THEN {} ELSE
                 (IF Foreign1(RootVal(part(o.in.path))) = Foreign1(orig) THEN {} ELSE {"unknown content"})
                 \cup (IF \A i \in DOMAIN kids : LET v == ChildVal(part(kids[i].path)) IN Foreign2(v.res, v.any) = Foreign2(kids[i].res, kids[i].any) THEN {} ELSE {"unknown content of childs"}))
  IN IF p = {} THEN [ok |-> TRUE] ELSE [ok |-> FALSE, exp |-> [problems |-> p, model |-> Foreign1(orig)]]
=============================================================================
