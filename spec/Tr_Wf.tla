------------------------------- MODULE Tr_Wf -------------------------------
(* Judges how the decoder ended: case.doc, or case.rep, a sequence of [text, how many times];             *)
(* case.prefixes: out.accepted are the lengths of the proper prefixes of case.doc taken without error.    *)
EXTENDS Wf, Walk

FeedAll(s, rep) == FoldLeft(LAMBDA r, x : Times(r, x[1], x[2]), s, rep)

(* An error about the content of a well-formed document is not an error about its form.                   *)
Fine(v, err, strict) ==
  CASE v = "ok" -> err # "other"
    [] v = "reject" -> IF strict THEN err # "" ELSE err = "other"
    [] OTHER -> TRUE

JudgeWf(c) ==
  LET s == IF "rep" \in DOMAIN c.case THEN FeedAll(Begin, c.case.rep) ELSE Feed(Begin, c.case.doc)
      v == Verdict(s)
      wrong == {k \in {c.out.accepted[i] : i \in DOMAIN c.out.accepted} : Verdict(Feed(Begin, SubSeq(c.case.doc, 1, k))) = "reject"}
  IN IF Fine(v, c.out.err, c.case.strict) /\ (c.case.child \/ Fine(v, c.out.um, FALSE)) /\ wrong = {} THEN [ok |-> TRUE]
     ELSE [ok |-> FALSE, exp |-> [verdict |-> v, prefixes |-> wrong]]
=============================================================================
