------------------------------- MODULE Tr_Dec -------------------------------
(* Judges decodings: case.strict, out.parts (trees; the first is the root), out.outs (the different      *)
(* answers for lexical variants of the same documents).                                                  *)
EXTENDS Large, Walk

Content(m) == [k \in DOMAIN Empty |-> m[k]]
Childs(c) == [i \in DOMAIN c.childs |-> [path |-> c.childs[i].path, res |-> c.childs[i].res, any |-> c.childs[i].any]]

JudgeDec(c) ==
  LET parts == c.out.parts
      names == c.case.parts
      errs == [i \in DOMAIN parts |-> InOrder(IF i = 1 THEN RootErrs(parts[i]) ELSE ChildErrs(parts[i]))]
      kids == Flat([i \in 1..(Len(parts) - 1) |-> errs[i + 1]])
      all == kids \o errs[1]
      first == {<<e[1]>> : e \in {errs[i] : i \in DOMAIN errs \ {1}} \ {<<>>}}
      model == RootVal(parts[1])
      childs == [i \in 1..(Len(parts) - 1) |-> [path |-> names[i + 1].path, res |-> ChildVal(parts[i + 1]).res, any |-> ChildVal(parts[i + 1]).any]]
      okErrs(o) == IF c.case.strict
                   THEN IF first # {} THEN o.errs \in first ELSE o.errs = SubSeq(errs[1], 1, IF errs[1] = <<>> THEN 0 ELSE 1)
                   ELSE o.errs = all
      okVal(o) == Content(o.model) = model /\ Childs(o.model) = childs /\ o.model.path = names[1].path
      okUm(o) == o.um = <<>> \/ (o.um[1] = model /\ o.um[2] = errs[1])
      ok(o) == okErrs(o) /\ okUm(o) /\ (IF c.case.strict /\ all # <<>> THEN TRUE ELSE okVal(o))
      failing(o) == {f \in {"errs", "um", "path"} \cup {"model." \o k : k \in DOMAIN model} \cup {"childs"} :
                       \/ f = "errs" /\ ~okErrs(o)
                       \/ f = "um" /\ ~okUm(o)
                       \/ f = "childs" /\ Childs(o.model) # childs
                       \/ f = "path" /\ o.model.path # names[1].path
                       \/ \E k \in DOMAIN model : f = "model." \o k /\ o.model[k] # model[k]}
      grows == "rep" \notin DOMAIN c.case \/ (RootGrows(parts[1], c.case.rep.kind) /\ \A i \in DOMAIN parts \ {1} : ChildGrows(parts[i], c.case.rep.kind))
  IN IF ~Assert(grows, "repetitions change more than their lists") THEN [ok |-> FALSE]
     ELSE IF \A i \in DOMAIN c.out.outs : ok(c.out.outs[i]) THEN [ok |-> TRUE]
     ELSE [ok |-> FALSE, exp |-> [in |-> [i \in DOMAIN c.out.outs |-> failing(c.out.outs[i])], errs |-> all, model |-> model, childs |-> childs]]
=============================================================================
