------------------------------ MODULE Tr_Valid ------------------------------
(* Judges what validation reported of case.m about case.area, and the filling in of identifiers.            *)
EXTENDS Valid, Walk

---------------------------------------------------------------------------
(* Identifiers. A version 4 identifier in its canonical form.                                              *)
Version4(s) == UU!Canonical(s) /\ SubSeq(s, 15, 15) = "4" /\ SubSeq(s, 20, 20) \in {"8", "9", "a", "b", "A", "B"}
Has1(x) == IF x = <<>> THEN FALSE ELSE x[1] # ""
(* All identifiers of a model in order.                                                                    *)
AllIds(s) == <<s.build>> \o [i \in DOMAIN s.items |-> s.items[i].id]
             \o Cat([q \in DOMAIN s.parts |-> Cat([o \in DOMAIN s.parts[q] |-> <<s.parts[q][o].id>> \o [k \in DOMAIN s.parts[q][o].comps |-> s.parts[q][o].comps[k].id]])])
AllPaths(s) == [i \in DOMAIN s.items |-> s.items[i].path]
               \o Cat([q \in DOMAIN s.parts |-> Cat([o \in DOMAIN s.parts[q] |-> [k \in DOMAIN s.parts[q][o].comps |-> s.parts[q][o].comps[k].path]])])
Filled(a, b) ==
  LET x == TLCEval(AllIds(a)) y == TLCEval(AllIds(b))
      new == {i \in DOMAIN x : ~Has1(x[i])} IN
  /\ DOMAIN x = DOMAIN y
  /\ \A i \in DOMAIN x : IF i \in new THEN IF y[i] = <<>> THEN FALSE ELSE Version4(y[i][1]) ELSE y[i] = x[i]
  /\ Cardinality({y[i] : i \in new}) = Cardinality(new)
  /\ \A i \in new : \A j \in DOMAIN x \ new : y[i] # x[j]
  /\ AllPaths(a) = AllPaths(b)

AnId == "123e4567-e89b-42d3-a456-426614174000"
JudgeFill(c) ==
  LET o == c.out
      left == Bag(SelectSeq(Errs("written", Filling(c.case.m, AnId)), LAMBDA e : e.c \in {"UUID", "missing:UUID"}))
      ok == /\ Len(o.stages) = c.case.times
            /\ Filled(o.before, o.stages[1])
            /\ \A i \in 2..Len(o.stages) : o.stages[i] = o.stages[1]
            /\ o.same /\ Bag(o.errs) = left IN
  [ok |-> ok, exp |-> [left |-> left]]

JudgeValidate(c) ==
  LET m == c.case.m
      got == TLCEval(Bag(Part(c.case.area, TLCEval(c.out.errs))))
      want == TLCEval(Bag(Part(c.case.area, TLCEval(Errs("written", m)))))
      pin == Part(c.case.area, TLCEval(Errs("pinned", m)))
      empty == c.out["nil"] = (c.out.errs = <<>>)
      known == got # want /\ got = Bag(pin) IN
  IF known THEN PrintT("KNOWN " \o ToJson([id |-> "clipping-rule", i |-> 1])) /\ empty
  ELSE empty /\ got = want

JudgeValid(c) ==
  IF c.case.op = "fillids" THEN JudgeFill(c)
  ELSE [ok |-> JudgeValidate(c), exp |-> Part(c.case.area, Errs("written", c.case.m))]
=============================================================================
