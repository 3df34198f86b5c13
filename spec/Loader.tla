------------------------------- MODULE Loader -------------------------------
(* Loading the parts of a package: the children at once, each on its own, then the root.                 *)
(*                                                                                                        *)
(* A configuration g has n children and for each part, the root being the last, how it ends: "ok", it has *)
(* a "content" error, or it cannot be read or is not well-formed ("hard"). A part has been read up to a   *)
(* level: 0 nothing, 1 half way to its fault, 2 its fault, 3 everything. The state s also has, for each   *)
(* part, where it is, the children that failed, in the order in which they did, whether the loader or the *)
(* caller cancelled, and the result.                                                                      *)
(*                                                                                                        *)
(* The steps Read, Ask (the root starts to be read), End (of the context of the caller) and Return can be *)
(* observed; the steps in which a part comes to its end cannot.                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Parts(g) == 1..(g.n + 1)
Kids(g) == 1..g.n
Root(g) == g.n + 1
Start(g) == [pos |-> [k \in Parts(g) |-> 0], st |-> [k \in Parts(g) |-> IF k \in Kids(g) THEN "run" ELSE "idle"],
             failed |-> <<>>, stop |-> FALSE, ended |-> FALSE, result |-> [kind |-> "none"]]

(* An error that stops a part where it is.                                                                *)
Fatal(g, k) == g.ends[k] = "hard" \/ (g.ends[k] = "content" /\ g.strict)
Running(s) == {k \in DOMAIN s.st : s.st[k] = "run"}
With(s, k) == {j \in DOMAIN s.st : s.st[j] = k}

(* ---- Steps that can be observed ----                                                                   *)
CanRead(g, s, k, to) == s.result.kind = "none" /\ s.st[k] = "run" /\ to >= s.pos[k]
Read(g, s, k, to) == [s EXCEPT !.pos[k] = to]
CanAsk(g, s) == s.result.kind = "none" /\ s.st[Root(g)] = "idle" /\ Running(s) = {} /\ s.failed = <<>> /\ With(s, "stopped") = {}
Ask(g, s) == [s EXCEPT !.st[Root(g)] = "run"]
End(g, s) == [s EXCEPT !.ended = TRUE]

(* ---- Steps that cannot ----                                                                            *)
Finish(g, s, k) ==
  IF s.st[k] # "run" THEN {}
  ELSE (IF s.pos[k] = 3 /\ g.ends[k] = "ok" THEN {[s EXCEPT !.st[k] = "ok"]} ELSE {})
    \cup (IF s.pos[k] = 3 /\ g.ends[k] = "content" /\ ~g.strict THEN {[s EXCEPT !.st[k] = "content"]} ELSE {})
    \cup (IF s.pos[k] >= 2 /\ Fatal(g, k) THEN {[s EXCEPT !.st[k] = "failed", !.failed = Append(@, k), !.stop = TRUE]} ELSE {})
    \cup (IF s.ended \/ (s.stop /\ k \in Kids(g)) THEN {[s EXCEPT !.st[k] = "stopped"]} ELSE {})
Hidden(g, s) == UNION {Finish(g, s, k) : k \in Parts(g)}

(* ---- The end ----                                                                                      *)
KindOf(g, k) == IF g.ends[k] = "hard" THEN "hard" ELSE "content"
(* What the loader of the design returns: the first that failed.                                         *)
Results(g, s) ==
  LET kids == Kids(g) IN
  IF Running(s) # {} \/ (s.st[Root(g)] = "idle" /\ s.failed = <<>> /\ ~s.ended) THEN {}
  ELSE (IF s.ended /\ (s.st[Root(g)] = "idle" \/ With(s, "stopped") # {}) THEN {[kind |-> "ctx", who |-> <<>>]} ELSE {})
    \cup (IF s.failed # <<>> THEN {[kind |-> KindOf(g, s.failed[1]), who |-> <<s.failed[1]>>]} ELSE {})
    \cup (IF s.failed = <<>> /\ With(s, "stopped") = {} /\ s.st[Root(g)] # "idle"
          THEN LET c == SelectSeq([k \in Parts(g) |-> k], LAMBDA k : s.st[k] = "content") IN
               {[kind |-> IF c = <<>> THEN "ok" ELSE "content", who |-> c]}
          ELSE {})

(* What may be returned: any of the failures that there were.                                            *)
May(g, s, r) ==
  \/ r \in Results(g, s)
  \/ Running(s) = {} /\ \E k \in With(s, "failed") : r = [kind |-> KindOf(g, k), who |-> <<k>>]
=============================================================================
