----------------------------- MODULE Tr_Loader -----------------------------
(* Judges recorded runs of the loader: the events that were observed have to be those of a behaviour of   *)
(* Loader, the steps that cannot be observed being free, and the result one that it may return then.      *)
EXTENDS Loader, Walk, SequencesExt

RECURSIVE Closure(_, _, _)
Closure(g, S, new) == IF new = {} THEN S ELSE LET more == UNION {Hidden(g, s) : s \in new} \ S IN Closure(g, S \cup more, more)
Close(g, S) == Closure(g, S, S)

After(g, S, e) ==
  LET C == Close(g, S) IN
  CASE e.k = "read" -> {Read(g, s, e.who, e.to) : s \in {s \in C : CanRead(g, s, e.who, e.to)}}
    [] e.k = "ask" -> {Ask(g, s) : s \in {s \in C : CanAsk(g, s)}}
    [] e.k = "end" -> {End(g, s) : s \in C}
    [] OTHER -> C

Conf(c) == [n |-> Len(c.parts) - 1, strict |-> c.strict,
            ends |-> [k \in 1..Len(c.parts) |-> CASE c.parts[k].fault \in {"ok", "content"} -> c.parts[k].fault [] OTHER -> "hard"]]

(* What each part contributes when everything was read.                                                   *)
Own(c, k) ==
  LET p == c.parts[k] IN
  [names |-> [i \in 1..k |-> IF i < k THEN "small " \o ToString(k - 1) ELSE "part " \o ToString(k - 1)],
   vertices |-> p.n + (IF p.fault = "content" THEN 1 ELSE 0)]

JudgeLoader(r) ==
  LET c == r.case
      o == r.out
      g == Conf(c)
      S == FoldLeft(LAMBDA acc, e : After(g, acc, e), {Start(g)}, o.events)
      \* parts whose own error is the one returned
      res == IF o.result.kind = "hard" THEN {[kind |-> "hard", who |-> <<o.result.who[i]>>] : i \in DOMAIN o.result.who}
             ELSE {[kind |-> o.result.kind, who |-> o.result.who]}
      whole == o.result.kind \in {"ok"} \/ (o.result.kind = "content" /\ ~c.strict)
  IN IF S = {} THEN [ok |-> FALSE, exp |-> "events that the loader can have"]
     ELSE IF ~\E s \in S, x \in res : May(g, s, x) THEN [ok |-> FALSE, exp |-> [results |-> UNION {Results(g, s) : s \in S}]]
     ELSE IF o.pending > 0 \/ o.late > 0 \/ o.leak THEN [ok |-> FALSE, exp |-> "all work has ended when decoding returns"]
     ELSE IF whole /\ (\/ o.nchilds # g.n \/ \E k \in 1..(g.n + 1) : o.own[k] # Own(c, k))
     THEN [ok |-> FALSE, exp |-> [own |-> [k \in 1..(g.n + 1) |-> Own(c, k)]]]
     ELSE [ok |-> TRUE]
=============================================================================
