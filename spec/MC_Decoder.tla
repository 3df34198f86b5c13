----------------------------- MODULE MC_Decoder -----------------------------
(* Every document with up to Free elements or texts in any nesting below one of the main elements of a   *)
(* model. The machine and the meaning of the document (Codec) agree; each document is printed with it.   *)
EXTENDS Decoder, Json
CONSTANT Free, Small
VARIABLES open, left, done
vars == <<frames, ign, nest, open, left, done>>

Names == IF Small THEN {<<"core", "resources">>, <<"core", "object">>, <<"core", "mesh">>, <<"core", "vertices">>, <<"core", "vertex">>, <<"core", "build">>, <<"core", "item">>,
           <<"core", "metadata">>, <<"m", "colorgroup">>, <<"http://x.org/one", "thing">>}
         ELSE {<<"core", n>> : n \in {"model", "resources", "object", "mesh", "vertices", "vertex", "triangles", "triangle", "components", "component", "build", "item",
           "metadatagroup", "metadata", "other"}} \cup {<<"m", n>> : n \in {"colorgroup", "color", "other"}} \cup {<<"http://x.org/one", n>> : n \in {"thing", "mesh"}}
(* The elements open at first.                                                                           *)
Begin == {<<"model">>, <<"model", "resources">>, <<"model", "resources", "object">>, <<"model", "resources", "object", "mesh">>,
          <<"model", "resources", "object", "mesh", "vertices">>, <<"model", "build">>, <<"model", "build", "item", "metadatagroup">>, <<"thing", "model">>}

RECURSIVE Feed(_, _)
Feed(fs, names) ==
  IF names = <<>> THEN fs
  ELSE Feed(Append(fs, [h |-> Head(names), g |-> Fresh(Head(names), "core", Head(names))]), Tail(names))

Init ==
  \E b \in Begin :
    /\ open = [i \in DOMAIN b |-> Blank("core", b[i])]
    /\ left = Free /\ done = FALSE /\ nest = 0
    /\ IF b[1] = "model" THEN frames = Feed(<<[h |-> "top", g |-> [list |-> <<>>]]>>, b) /\ ign = 0
       ELSE frames = <<[h |-> "top", g |-> [list |-> <<>>]]>> /\ ign = Len(b)
AddText(s) == [open EXCEPT ![Len(open)].c = Append(@, [t |-> "T", s |-> s])]
EndsInText == LET k == open[Len(open)].c IN k # <<>> /\ k[Len(k)].t = "T"
Next ==
  /\ ~done
  /\ \/ left > 0 /\ left' = left - 1 /\ UNCHANGED done
        /\ \/ \E n \in Names : open' = Append(open, Blank(n[1], n[2])) /\ MStart(n[1], n[2])
           \/ ~EndsInText /\ open' = AddText("t" \o ToString(left)) /\ MText("t" \o ToString(left))
     \/ UNCHANGED left /\ MEnd
        /\ IF Len(open) = 1 THEN done' = TRUE /\ UNCHANGED open
           ELSE /\ UNCHANGED done
                /\ open' = SubSeq([open EXCEPT ![Len(open) - 1].c = Append(@, open[Len(open)])], 1, Len(open) - 1)
Spec == Init /\ [][Next]_vars

(* Every open element is handled, ignored or kept.                                                       *)
Balanced == ~done => Len(frames) - 1 + ign + nest = Len(open)
(* Content is ignored or kept by one handler at a time.                                                  *)
Modes == ~(ign > 0 /\ nest > 0) /\ (nest > 0 => Cur.h = "foreign")
(* The machine ends where it began, with the value of the document.                                      *)
Agree == done => (ign = 0 /\ nest = 0 /\ Len(frames) = 1 /\ Result = RootVal(open[1]))
Emit == (done /\ left = 0) => PrintT("CASE " \o ToJson([tree |-> open[1], exp |-> RootVal(open[1])]))
=============================================================================
