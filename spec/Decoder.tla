------------------------------ MODULE Decoder ------------------------------
(* The decoder as a machine that reads a document from start to end: a stack of handlers, one for each   *)
(* open element that has a meaning, each with what it has gathered so far. Elements inside one without   *)
(* meaning are only counted (ign), elements inside foreign content are gathered as they are (nest).      *)
EXTENDS Codec

ChildOf(h, ns, name) ==
  CASE h = "top" /\ ns = "core" /\ name = "model" -> "model"
    [] h = "model" /\ ns = "core" /\ name \in {"resources", "build", "metadata"} -> name
    [] h = "resources" /\ ns = "core" /\ name = "object" -> name
    [] h = "object" /\ ns = "core" /\ name \in {"mesh", "components", "metadatagroup"} -> name
    [] h = "mesh" /\ ns = "core" /\ name \in {"vertices", "triangles"} -> name
    [] h = "vertices" /\ ns = "core" /\ name = "vertex" -> name
    [] h = "triangles" /\ ns = "core" /\ name = "triangle" -> name
    [] h = "components" /\ ns = "core" /\ name = "component" -> name
    [] h = "build" /\ ns = "core" /\ name = "item" -> name
    [] h = "item" /\ ns = "core" /\ name = "metadatagroup" -> name
    [] h = "metadatagroup" /\ ns = "core" /\ name = "metadata" -> name
    [] h \in {"model", "resources", "mesh"} /\ ns = "m" /\ name = "colorgroup" -> name
    [] h = "colorgroup" /\ ns = "m" /\ name = "color" -> name
    [] h \in {"model", "resources", "mesh"} /\ ns \notin Known -> "foreign"
    [] OTHER -> ""

Blank(ns, name) == [t |-> "S", ns |-> ns, n |-> name, a |-> <<>>, c |-> <<>>]
(* What a handler starts with.                                                                           *)
Fresh(h, ns, name) ==
  CASE h = "model" -> [res |-> [assets |-> <<>>, objects |-> <<>>], items |-> <<>>, meta |-> <<>>, any |-> <<>>]
    [] h = "resources" -> [assets |-> <<>>, objects |-> <<>>]
    [] h = "object" -> [mesh |-> <<>>, comps |-> <<>>, meta |-> <<>>]
    [] h = "mesh" -> [vs |-> <<>>, ts |-> <<>>, any |-> <<>>]
    [] h = "foreign" -> [open |-> <<Blank(ns, name)>>]
    [] h = "metadata" -> [text |-> ""]
    [] OTHER -> [list |-> <<>>]

ZeroAttr(n) == [t |-> "S", ns |-> "core", n |-> n, a |-> <<>>, c |-> <<>>]
Meta0(text) == [ns |-> "", n |-> "", val |-> text, type |-> "", pres |-> FALSE]
(* What a handler gives to the one around it when its element ends.                                      *)
Merge(p, f) ==
  LET g == p.g IN
  [p EXCEPT !.g =
    CASE p.h = "top" -> [list |-> <<f.g>>]
      [] p.h = "model" /\ f.h = "resources" -> [g EXCEPT !.res = [assets |-> @.assets \o f.g.assets, objects |-> @.objects \o f.g.objects]]
      [] p.h = "model" /\ f.h = "build" -> [g EXCEPT !.items = @ \o f.g.list]
      [] p.h = "model" /\ f.h = "metadata" -> [g EXCEPT !.meta = Append(@, Meta0(f.g.text))]
      [] p.h \in {"model", "mesh"} /\ f.h = "colorgroup" -> [g EXCEPT !.any = Append(@, [k |-> "color", id |-> "0", cs |-> f.g.list])]
      [] p.h \in {"model", "mesh"} /\ f.h = "foreign" -> [g EXCEPT !.any = Append(@, [k |-> "tok", tree |-> f.g.open[1]])]
      [] p.h = "resources" /\ f.h = "colorgroup" -> [g EXCEPT !.assets = Append(@, [k |-> "color", id |-> "0", cs |-> f.g.list])]
      [] p.h = "resources" /\ f.h = "foreign" -> [g EXCEPT !.assets = Append(@, [k |-> "unk", id |-> "0", tree |-> f.g.open[1]])]
      [] p.h = "resources" /\ f.h = "object" ->
           [g EXCEPT !.objects = Append(@, [id |-> "0", name |-> "", pn |-> "", thumb |-> "", pid |-> "0", pidx |-> "0", type |-> "model",
              meta |-> [md |-> f.g.meta, attrs |-> <<>>], mesh |-> f.g.mesh, comps |-> f.g.comps, attrs |-> <<>>])]
      [] p.h = "object" /\ f.h = "mesh" -> [g EXCEPT !.mesh = <<[attrs |-> <<>>, vattrs |-> <<>>, tattrs |-> <<>>, vs |-> f.g.vs, ts |-> f.g.ts, any |-> f.g.any]>>]
      [] p.h = "object" /\ f.h = "components" -> [g EXCEPT !.comps = <<[attrs |-> <<>>, list |-> f.g.list]>>]
      [] p.h = "object" /\ f.h = "metadatagroup" -> [g EXCEPT !.meta = @ \o f.g.list]
      [] p.h = "mesh" /\ f.h = "vertices" -> [g EXCEPT !.vs = @ \o f.g.list]
      [] p.h = "mesh" /\ f.h = "triangles" -> [g EXCEPT !.ts = @ \o f.g.list]
      [] p.h = "vertices" -> [g EXCEPT !.list = Append(@, <<"0", "0", "0">>)]
      [] p.h = "triangles" -> [g EXCEPT !.list = Append(@, [v |-> <<"0", "0", "0">>, pid |-> "0", p |-> <<"0", "0", "0">>, attrs |-> <<>>])]
      [] p.h = "components" -> [g EXCEPT !.list = Append(@, [oid |-> "0", tr |-> <<>>, attrs |-> <<>>])]
      [] p.h = "colorgroup" -> [g EXCEPT !.list = Append(@, "00000000")]
      [] p.h = "build" -> [g EXCEPT !.list = Append(@, [oid |-> "0", tr |-> <<>>, pn |-> "", meta |-> [md |-> f.g.list, attrs |-> <<>>], attrs |-> <<>>])]
      [] p.h = "item" -> [g EXCEPT !.list = @ \o f.g.list]
      [] p.h = "metadatagroup" -> [g EXCEPT !.list = Append(@, Meta0(f.g.text))]
      [] OTHER -> g]

VARIABLES frames, ign, nest
machine == <<frames, ign, nest>>
Cur == frames[Len(frames)]
SetCur(f) == [frames EXCEPT ![Len(frames)] = f]

MInit == frames = <<[h |-> "top", g |-> [list |-> <<>>]]>> /\ ign = 0 /\ nest = 0
MStart(ns, name) ==
  IF ign > 0 THEN ign' = ign + 1 /\ UNCHANGED <<frames, nest>>
  ELSE IF Cur.h = "foreign" THEN frames' = SetCur([Cur EXCEPT !.g.open = Append(@, Blank(ns, name))]) /\ nest' = nest + 1 /\ UNCHANGED ign
  ELSE LET h == ChildOf(Cur.h, ns, name) IN
       IF h = "" THEN ign' = 1 /\ UNCHANGED <<frames, nest>>
       ELSE frames' = Append(frames, [h |-> h, g |-> Fresh(h, ns, name)]) /\ UNCHANGED <<ign, nest>>
MText(s) ==
  /\ UNCHANGED <<ign, nest>>
  /\ frames' = IF ign > 0 THEN frames
               ELSE IF Cur.h = "metadata" THEN SetCur([Cur EXCEPT !.g.text = @ \o s])
               ELSE IF Cur.h = "foreign" THEN SetCur([Cur EXCEPT !.g.open[Len(Cur.g.open)].c = Append(@, [t |-> "T", s |-> s])])
               ELSE frames
MEnd ==
  IF ign > 0 THEN ign' = ign - 1 /\ UNCHANGED <<frames, nest>>
  ELSE IF nest > 0 THEN
    LET o == Cur.g.open  k == Len(o) IN
    /\ frames' = SetCur([Cur EXCEPT !.g.open = SubSeq([o EXCEPT ![k - 1].c = Append(@, o[k])], 1, k - 1)])
    /\ nest' = nest - 1 /\ UNCHANGED ign
  ELSE frames' = SubSeq([frames EXCEPT ![Len(frames) - 1] = Merge(@, frames[Len(frames)])], 1, Len(frames) - 1) /\ UNCHANGED <<ign, nest>>

(* The model that has been read.                                                                         *)
Result == IF frames[1].g.list = <<>> THEN Empty
          ELSE LET g == frames[1].g.list[1] IN
               [Empty EXCEPT !.res = [attrs |-> <<>>, assets |-> g.res.assets, objects |-> g.res.objects], !.build.items = g.items, !.meta = g.meta, !.any = g.any]
=============================================================================
