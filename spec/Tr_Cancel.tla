----------------------------- MODULE Tr_Cancel -----------------------------
(* Judges decodes and imports whose context ended: out.left is what was left then and out.after what was  *)
(* read after that, in elements for each part; out.result: ok, ctx, otherctx (not the error of this       *)
(* context), error. Many is what counts as a substantial amount, and as a bounded number of elements.     *)
EXTENDS Walk, FiniteSets

Many == 10000
Over(s) == {i \in DOMAIN s : s[i] > Many}

JudgeCancel(r) ==
  LET c == r.case
      o == r.out
  IN IF ~o.ended THEN IF o.result = "ok" THEN [ok |-> TRUE] ELSE [ok |-> FALSE, exp |-> "ok: the context did not end"]
     ELSE IF Over(o.after) # {} THEN [ok |-> FALSE, exp |-> "a bounded number of elements after the end"]
     ELSE IF Over(o.left) # {} /\ o.result # "ctx" THEN [ok |-> FALSE, exp |-> "the error of the context"]
     ELSE IF o.result \notin {"ok", "ctx"} THEN [ok |-> FALSE, exp |-> "ok or the error of the context"]
     ELSE IF c.op = "cancel" /\ c.who = (0-1) /\ o.result # "ctx" THEN [ok |-> FALSE, exp |-> "the error of the context, which had ended before"]
     ELSE IF c.op = "stlcancel" /\ o.result = "ctx" /\ ~o.same THEN [ok |-> FALSE, exp |-> "the model as it was"]
     ELSE [ok |-> TRUE]
=============================================================================
