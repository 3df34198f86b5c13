------------------------------- MODULE Errs -------------------------------
(* C26. Errors as a stack machine: every operation of package errors consumes the values on top of a     *)
(* stack and pushes its result. A value is nothing, one error, or a collection; a member has the levels  *)
(* of its location from outermost to innermost, the part it belongs to and the original error.           *)
EXTENDS Naturals, Integers, Sequences, TLC, SequencesExt

Nil == [k |-> "nil", ms |-> <<>>]
One(m) == [k |-> "one", ms |-> <<m>>]
List(ms) == [k |-> "list", ms |-> ms]

Leaf(n) == One([at |-> <<>>, loc |-> FALSE, p |-> "", leaf |-> n])

RECURSIVE Cat(_)
Cat(vs) == IF vs = <<>> THEN <<>> ELSE vs[1].ms \o Cat(Tail(vs))

(* Combining: every non-nil error exactly once, in order; nothing but nils is nothing, unless a          *)
(* collection was there to begin with. A single argument is returned as it is.                           *)
Append_(vs) ==
  IF Len(vs) = 1 THEN vs[1]
  ELSE IF vs[1].k # "list" /\ \A i \in DOMAIN vs : vs[i].k = "nil" THEN Nil
  ELSE List(Cat(vs))

Level(n, i) == IF i = -1 THEN n ELSE n \o "[" \o ToString(i) \o "]"

WrapI(v, n, i) ==
  [v EXCEPT !.ms = [j \in DOMAIN v.ms |-> [v.ms[j] EXCEPT !.at = <<Level(n, i)>> \o @, !.loc = TRUE]]]

WrapP(v, n, p) ==
  [v EXCEPT !.ms = [j \in DOMAIN v.ms |-> [v.ms[j] EXCEPT !.at = <<Level(n, -1)>> \o @, !.loc = TRUE, !.p = p]]]

(* Collections can be reordered.                                                                         *)
Turn(v) == IF v.k = "list" /\ Len(v.ms) > 1 THEN [v EXCEPT !.ms = <<@[Len(@)]>> \o SubSeq(@, 2, Len(@) - 1) \o <<@[1]>>] ELSE v

Op(o, st) ==
  LET n == Len(st)
      pop(k) == SubSeq(st, 1, n - k)
      top(k) == SubSeq(st, n - k + 1, n) IN
  CASE o.o = "leaf"  -> Append(st, Leaf(o.n))
    [] o.o = "nil"   -> Append(st, Nil)
    [] o.o = "app1"  -> Append(pop(1), Append_(top(1)))
    [] o.o = "app2"  -> Append(pop(2), Append_(top(2)))
    [] o.o = "app3"  -> Append(pop(3), Append_(top(3)))
    [] o.o = "appn"  -> Append(pop(o.n), Append_(top(o.n)))
    [] o.o = "turn"  -> Append(pop(1), Turn(st[n]))
    [] o.o = "say"   -> st                                          \* asking for the text changes nothing
    [] o.o = "wrap"  -> Append(pop(1), WrapI(st[n], o.n, -1))
    [] o.o = "wrapi" -> Append(pop(1), WrapI(st[n], o.n, o.i))
    [] o.o = "wrapp" -> Append(pop(1), WrapP(st[n], o.n, o.p))

Arity(o) == CASE o.o \in {"leaf", "nil"} -> 0 [] o.o = "app2" -> 2 [] o.o = "app3" -> 3 [] o.o = "appn" -> o.n [] OTHER -> 1

RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)

XPath(m) == IF m.loc THEN "/" \o Join(m.at, "/") ELSE ""

Text(m) ==
  IF ~m.loc THEN m.leaf
  ELSE IF m.p = "" THEN "go3mf: XPath: " \o XPath(m) \o ": " \o m.leaf
  ELSE "go3mf: Path: " \o m.p \o " XPath: " \o XPath(m) \o ": " \o m.leaf

ListText(ms) ==
  IF Len(ms) = 1 THEN "1 error occurred:\n\t* " \o Text(ms[1]) \o "\n"
  ELSE ToString(Len(ms)) \o " errors occurred:\n\t" \o Join([i \in DOMAIN ms |-> "* " \o Text(ms[i])], "\n\t") \o "\n"

(* What can be observed of a value.                                                                      *)
Obs(v) ==
  [k |-> v.k, n |-> Len(v.ms), first |-> IF v.ms = <<>> THEN "" ELSE v.ms[1].leaf,
   ms |-> [i \in DOMAIN v.ms |-> [x |-> XPath(v.ms[i]), p |-> v.ms[i].p, leaf |-> v.ms[i].leaf, text |-> Text(v.ms[i])]],
   text |-> CASE v.k = "nil" -> "" [] v.k = "one" -> Text(v.ms[1]) [] v.k = "list" -> ListText(v.ms)]

RECURSIVE Exec(_, _)
Exec(prog, st) == IF prog = <<>> THEN st ELSE Exec(Tail(prog), Op(prog[1], st))
===========================================================================
