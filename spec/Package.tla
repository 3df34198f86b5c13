------------------------------ MODULE Package ------------------------------
(* The package around the model parts: names of parts, relationships, what writing a model puts into a   *)
(* package and what reading a package gives.                                                             *)
(*                                                                                                        *)
(* A package is [parts : Seq([name, ct, data]), rels : Seq([src, id, type, target])]; the data of a model *)
(* part is the tag that tells whose content it is. A model is                                             *)
(* [path, tag, thumb, rels, rrels, imp, childs : Seq([path, tag, rels, imp]), atts : Seq([path, ct, data])] *)
(* with relationships [id, type, path]; imp are those that resources imply.                               *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]

---------------------------------------------------------------------------
(* Names of parts.                                                                                       *)
Split(s) ==
  LET r == FoldLeft(LAMBDA a, ch : IF ch \in {"/", "\\"} THEN [out |-> Append(a.out, a.cur), cur |-> ""] ELSE [a EXCEPT !.cur = @ \o ch],
                    [out |-> <<>>, cur |-> ""], Chars(s))
  IN Append(r.out, r.cur)
Clean(segs) ==
  FoldLeft(LAMBDA a, g : IF g \in {"", "."} THEN a ELSE IF g = ".." THEN (IF a = <<>> THEN a ELSE Front(a)) ELSE Append(a, g), <<>>, segs)
Join(segs) == IF segs = <<>> THEN "/" ELSE FoldLeft(LAMBDA a, g : a \o "/" \o g, "", segs)
Absolute(s) == s # "" /\ SubSeq(s, 1, 1) \in {"/", "\\"}
Folder(name) == LET g == Clean(Split(name)) IN IF g = <<>> THEN g ELSE Front(g)
(* The name of the part that target refers to in src, a part or the package, "/".                         *)
Resolve(src, target) == Join(Clean(IF Absolute(target) THEN Split(target) ELSE Folder(src) \o Split(target)))

UpperCase == Chars("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
LowerCase == Chars("abcdefghijklmnopqrstuvwxyz")
LowerOf == [ch \in Range(UpperCase) |-> LowerCase[CHOOSE i \in DOMAIN UpperCase : UpperCase[i] = ch]]
Lower(ch) == IF ch \in DOMAIN LowerOf THEN LowerOf[ch] ELSE ch
Hex == Chars("0123456789abcdef")
HexVal == [ch \in Range(Hex) |-> (CHOOSE i \in DOMAIN Hex : Hex[i] = ch) - 1]
Ascii == Chars(" !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~")
(* Names that differ in the case of letters, or in what is escaped, are the same name.                    *)
Fold(s) ==
  LET step(a, raw) ==
        LET ch == Lower(raw) IN
        IF a.st = 1 THEN [a EXCEPT !.st = 2, !.h = HexVal[ch]]
        ELSE IF a.st = 2 THEN [st |-> 0, h |-> 0, out |-> a.out \o Lower(Ascii[a.h * 16 + HexVal[ch] - 31])]
        ELSE IF ch = "%" THEN [a EXCEPT !.st = 1]
        ELSE [a EXCEPT !.out = @ \o ch]
  IN FoldLeft(step, [st |-> 0, h |-> 0, out |-> ""], Chars(s)).out
Same(a, b) == Fold(a) = Fold(b)

---------------------------------------------------------------------------
(* Reading.                                                                                              *)
Model == "3dmodel"
First(s, p(_)) == LET h == {i \in DOMAIN s : p(s[i])} IN IF h = {} THEN 0 ELSE CHOOSE i \in h : \A j \in h : i <= j
Dedupe(s) == FoldLeft(LAMBDA a, x : IF \E i \in DOMAIN a : a[i] = x THEN a ELSE Append(a, x), <<>>, s)

(* The part that a relationship leads to, 0 if there is none.                                             *)
Found(P, r) == LET n == Fold(Resolve(r.src, r.target)) IN First(P.parts, LAMBDA p : Fold(p.name) = n)
AsRels(rs) == [i \in DOMAIN rs |-> [id |-> rs[i].id, type |-> rs[i].type, path |-> rs[i].target]]

Failed == [err |-> "error"]
Unpack(P) ==
  LET names == TLCEval([i \in DOMAIN P.parts |-> Fold(P.parts[i].name)])
      srcs == TLCEval([i \in DOMAIN P.rels |-> Fold(P.rels[i].src)])
      dest == TLCEval([i \in DOMAIN P.rels |-> LET n == Fold(Resolve(P.rels[i].src, P.rels[i].target)) IN First(names, LAMBDA x : x = n)])
      all == [i \in DOMAIN P.rels |-> i]
      from(src) == SelectSeq(all, LAMBDA i : srcs[i] = src)
      \* relationships to models have their own meaning; those to what is not there have none
      kept(src) == SelectSeq(from(src), LAMBDA i : P.rels[i].type # Model /\ dest[i] # 0)
      rels(is) == AsRels([k \in DOMAIN is |-> P.rels[is[k]]])
      ends(is) == [k \in DOMAIN is |-> dest[is[k]]]
      roots == SelectSeq(from("/"), LAMBDA i : P.rels[i].type = Model)
      root == IF roots = <<>> THEN 0 ELSE dest[Last(roots)]
      kids == Dedupe(ends(SelectSeq(from(names[root]), LAMBDA i : P.rels[i].type = Model /\ dest[i] \notin {0, root})))
      atts == Dedupe(ends(kept("/") \o kept(names[root]) \o FlattenSeq([i \in DOMAIN kids |-> kept(names[kids[i]])])))
      others == SelectSeq(atts, LAMBDA k : k # root /\ \A i \in DOMAIN kids : kids[i] # k)
      part(k) == P.parts[k]
  IN IF roots = <<>> THEN Failed
     ELSE IF \E k \in Range(roots) : dest[k] = 0 THEN Failed
     ELSE [err |-> "", path |-> part(root).name, tag |-> part(root).data, rrels |-> rels(kept("/")), rels |-> rels(kept(names[root])),
           childs |-> {[path |-> part(k).name, tag |-> part(k).data, rels |-> rels(kept(names[k]))] : k \in Range(kids)},
           atts |-> {[path |-> part(k).name, ct |-> part(k).ct, data |-> part(k).data] : k \in Range(others)},
           natts |-> Len(others), nchilds |-> Len(kids)]

---------------------------------------------------------------------------
(* Writing.                                                                                              *)
RootOf(m) == Resolve("/", IF m.path = "" THEN "/3D/3dmodel.model" ELSE m.path)
ChildOf(m, c) == Resolve(RootOf(m), c.path)
ModelCT == "model"
PartsOf(m) ==
  [i \in DOMAIN m.atts |-> [name |-> Resolve("/", m.atts[i].path), ct |-> m.atts[i].ct, data |-> m.atts[i].data]]
  \o <<[name |-> RootOf(m), ct |-> ModelCT, data |-> m.tag]>>
  \o [i \in DOMAIN m.childs |-> [name |-> ChildOf(m, m.childs[i]), ct |-> ModelCT, data |-> m.childs[i].tag]]

Key(r) == <<r.type, r.path>>
Unique(rs) == FoldLeft(LAMBDA a, r : IF \E i \in DOMAIN a : Key(a[i]) = Key(r) THEN a ELSE Append(a, r), <<>>, rs)
Rel(type, path) == [id |-> "", type |-> type, path |-> path]
(* The relationships that are listed: by source, [src, rels, imp].                                       *)
Sources(m) ==
  << [src |-> "/", rels |-> Unique(m.rrels), imp |-> <<Rel(Model, RootOf(m))>> \o (IF m.thumb = "" THEN <<>> ELSE <<Rel("thumbnail", m.thumb)>>)],
     [src |-> RootOf(m), rels |-> Unique(m.rels), imp |-> m.imp \o [i \in DOMAIN m.childs |-> Rel(Model, ChildOf(m, m.childs[i]))]] >>
  \o [i \in DOMAIN m.childs |-> [src |-> ChildOf(m, m.childs[i]), rels |-> Unique(m.childs[i].rels), imp |-> m.childs[i].imp]]

Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
Inside(a, b) == LET x == Clean(Split(a)) y == Clean(Split(b)) IN Len(y) < Len(x) /\ SubSeq(x, 1, Len(y)) = y
(* Whether a package can hold the model.                                                                 *)
Encodable(m) ==
  LET ps == PartsOf(m)
      names == [i \in DOMAIN ps |-> Fold(ps[i].name)]
      ids(rs) == LET k == SelectSeq(rs, LAMBDA r : r.id # "") IN [i \in DOMAIN k |-> k[i].id]
  IN /\ Distinct(names)
     /\ \A i, j \in DOMAIN names : ~Inside(names[i], names[j])
     /\ \A i \in DOMAIN Sources(m) : Distinct(ids(Sources(m)[i].rels))

(* One relationship written for each one listed and for each one implied: implied ones are satisfied by   *)
(* any that leads to the same part, except those to model parts, which matter as such.                    *)
RelsOk(P, s) ==
  LET rs == SelectSeq(P.rels, LAMBDA r : r.src = s.src)
      listed(r) == \E i \in DOMAIN s.rels : Key(s.rels[i]) = <<r.type, r.target>>
      implied(r) == \E i \in DOMAIN s.imp : s.imp[i].type = r.type /\ Same(Resolve(s.src, s.imp[i].path), Resolve(s.src, r.target))
  IN /\ \A i \in DOMAIN s.rels :
          LET hits == SelectSeq(rs, LAMBDA r : <<r.type, r.target>> = Key(s.rels[i])) IN
          Len(hits) = 1 /\ (s.rels[i].id = "" \/ hits[1].id = s.rels[i].id)
     /\ \A i \in DOMAIN s.imp :
          \E j \in DOMAIN rs : /\ s.imp[i].type = Model => rs[j].type = Model
                               /\ Same(Resolve(s.src, s.imp[i].path), Resolve(s.src, rs[j].target))
     /\ \A i \in DOMAIN rs : listed(rs[i]) \/ implied(rs[i])
     /\ Distinct([i \in DOMAIN rs |-> <<rs[i].type, rs[i].target>>])
     /\ Distinct([i \in DOMAIN rs |-> rs[i].id])
     /\ \A i \in DOMAIN rs : rs[i].id # ""

PackageOf(P, m) ==
  /\ Len(P.parts) = Len(PartsOf(m))
  /\ Range(P.parts) = Range(PartsOf(m))
  /\ \A i \in DOMAIN Sources(m) : RelsOk(P, Sources(m)[i])
  /\ \A i \in DOMAIN P.rels : \E k \in DOMAIN Sources(m) : Sources(m)[k].src = P.rels[i].src

(* One package that holds the model, with ids for all relationships.                                      *)
Pack(m) ==
  LET named(s) == LET all == Unique(s.rels \o s.imp) IN
                  [i \in DOMAIN all |-> [src |-> s.src, id |-> IF all[i].id = "" THEN "r" \o ToString(i) ELSE all[i].id, type |-> all[i].type, target |-> all[i].path]]
  IN [parts |-> PartsOf(m), rels |-> FlattenSeq([i \in DOMAIN Sources(m) |-> named(Sources(m)[i])])]

(* What is left of a model after writing and reading: what nothing is related to is not found again.      *)
Reaches(m, s, r) == \E p \in Range(PartsOf(m)) : Same(p.name, Resolve(s.src, r.path))
Restores(d, m) ==
  LET S == Sources(m)
      listed(s) == SelectSeq(s.rels, LAMBDA r : r.type # Model /\ Reaches(m, s, r))
      implied(s) == SelectSeq(s.imp, LAMBDA r : r.type # Model /\ Reaches(m, s, r))
      same(rs, s) == /\ \A i \in DOMAIN listed(s) : Cardinality({k \in DOMAIN rs : Key(rs[k]) = Key(listed(s)[i]) /\ (listed(s)[i].id \in {"", rs[k].id})}) = 1
                     /\ \A i \in DOMAIN implied(s) : \E k \in DOMAIN rs : Same(Resolve(s.src, rs[k].path), Resolve(s.src, implied(s)[i].path))
                     /\ \A k \in DOMAIN rs : \E i \in DOMAIN (listed(s) \o implied(s)) : Key((listed(s) \o implied(s))[i]) = Key(rs[k])
                     /\ Distinct([k \in DOMAIN rs |-> Key(rs[k])])
      related == UNION {{Fold(Resolve(S[i].src, r.path)) : r \in Range(S[i].rels) \cup Range(S[i].imp)} : i \in DOMAIN S}
      atts == {p \in Range(SubSeq(PartsOf(m), 1, Len(m.atts))) : Fold(p.name) \in related}
  IN /\ d.err = "" /\ d.path = RootOf(m) /\ d.tag = m.tag
     /\ same(d.rrels, S[1]) /\ same(d.rels, S[2])
     /\ {[path |-> x.path, tag |-> x.tag] : x \in d.childs} = {[path |-> ChildOf(m, c), tag |-> c.tag] : c \in Range(m.childs)}
     /\ d.nchilds = Len(m.childs)
     /\ \A i \in DOMAIN m.childs : \E x \in d.childs : x.path = ChildOf(m, m.childs[i]) /\ same(x.rels, S[i + 2])
     /\ d.atts = {[path |-> p.name, ct |-> p.ct, data |-> p.data] : p \in atts}
     /\ d.natts = Cardinality(atts)
=============================================================================
