----------------------------- MODULE MC_Loader -----------------------------
(* Every schedule of the loader, for every way in which its parts can end.                                *)
EXTENDS Loader, Json

CONSTANTS N, Ends, RootEnds, Stricts, Cancels, Emits, Levels
VARIABLES g, s, hist

vars == <<g, s, hist>>
Init == /\ g \in [n : {N}, ends : {e \in [1..(N + 1) -> Ends] : e[N + 1] \in RootEnds}, strict : Stricts]
        /\ s = Start(g) /\ hist = <<>>

Note(e) == hist' = IF Emits THEN Append(hist, e) ELSE hist
DoRead == \E k \in Parts(g), to \in Levels :
            /\ CanRead(g, s, k, to) /\ to > s.pos[k]
            /\ s' = Read(g, s, k, to) /\ Note(<<k, to>>)
DoAsk == CanAsk(g, s) /\ s' = Ask(g, s) /\ UNCHANGED hist
DoEnd == Cancels /\ s.result.kind = "none" /\ ~s.ended /\ s' = End(g, s) /\ Note(<<0, 0>>)
DoFinish == \E x \in Hidden(g, s) : s' = x /\ UNCHANGED hist
DoReturn == /\ s.result.kind = "none"
            /\ \E r \in Results(g, s) : s' = [s EXCEPT !.result = r]
            /\ UNCHANGED hist
Next == (DoRead \/ DoAsk \/ DoEnd \/ DoFinish \/ DoReturn) /\ UNCHANGED g
Spec == Init /\ [][Next]_vars /\ WF_vars((DoRead \/ DoAsk \/ DoFinish \/ DoReturn) /\ UNCHANGED g)

(* Enumeration of schedules only: a part that can end does so at once.                                    *)
EagerNext ==
  /\ UNCHANGED g
  /\ IF \E k \in Parts(g) : Finish(g, s, k) # {}
     THEN LET k == CHOOSE k \in Parts(g) : Finish(g, s, k) # {} IN s' \in Finish(g, s, k) /\ UNCHANGED hist
     ELSE DoRead \/ DoAsk \/ DoEnd \/ DoReturn

Done == s.result.kind # "none"
(* C07. *)
NeverOwnCancel == Done => (s.result.kind = "ctx" => s.ended)
ReallyFailed == Done => \A i \in DOMAIN s.result.who : s.st[s.result.who[i]] \in {"failed", "content"}
AllEnded == Done => Running(s) = {}
RootLast == s.st[Root(g)] # "idle" => \A k \in Kids(g) : s.st[k] \in {"ok", "content"}
OkMeansOk == Done /\ s.result.kind = "ok" => \A k \in Parts(g) : s.st[k] = "ok"
(* Without a cancellation the kind of result does not depend on the schedule, and neither does the result *)
(* when at most one part fails.                                                                           *)
Fatals == {k \in Kids(g) : Fatal(g, k)}
Independent ==
  Done /\ ~s.ended =>
    /\ Fatals # {} => \E k \in Fatals : s.result = [kind |-> KindOf(g, k), who |-> <<k>>]
    /\ Fatals = {} /\ Fatal(g, Root(g)) => s.result = [kind |-> KindOf(g, Root(g)), who |-> <<Root(g)>>]
    /\ Fatals = {} /\ ~Fatal(g, Root(g)) =>
         s.result.who = SelectSeq([k \in Parts(g) |-> k], LAMBDA k : g.ends[k] = "content")
Allowed == Done => May(g, [s EXCEPT !.result = [kind |-> "none"]], s.result)
Returns == <>Done
Emit == (Emits /\ Done) => PrintT("CASE " \o ToJson([ends |-> g.ends, strict |-> g.strict, sched |-> hist]))
=============================================================================
