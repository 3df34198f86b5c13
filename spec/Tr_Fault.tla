------------------------------ MODULE Tr_Fault ------------------------------
(* Judges runs with faults. Writing: out.failed, whether a write, or a read of an attachment, failed;      *)
(* out.err; out.opens, what the destination received can be decoded; out.same, to the same.                *)
(* Reading: out.groups, the different [where, mode, hit, err, same] that were seen.                        *)
EXTENDS Package, Walk

WriteOk(o) ==
  /\ o.failed => o.err # ""
  /\ ~o.failed => o.err = "" /\ o.opens
  /\ o.opens => o.same
  /\ o.failed /\ o.lost => ~o.opens

(* Parts whose data decoding uses, and whose checksums reveal that they were changed.                     *)
Used == {"types", "rels", "root", "child", "attachment"}
ReadOk(g) ==
  /\ g.err = "" => g.same
  /\ g.mode \in {"fail", "part"} /\ g.hit => g.err # ""
  \* the end of the directory is searched in a large block: bytes missing in it may not matter
  \* and what follows the data of a part may be read ahead, and again
  /\ g.mode \in {"short", "once"} /\ g.hit /\ g.at \in Used => g.err # ""
  /\ ~g.hit => g.err = ""

(* Names and positions in the directory have no checksum.                                                 *)
Unprotected(g) == g.mode = "flip" /\ g.at \in {"directory", "header", "unused"}

JudgeFault(c) ==
  CASE c.case.op = "wfault" -> IF WriteOk(c.out) THEN [ok |-> TRUE] ELSE [ok |-> FALSE, exp |-> "an error exactly when a write failed, and only complete packages open"]
    [] c.case.op = "prefixes" -> IF c.out.accepted = <<>> THEN [ok |-> TRUE] ELSE [ok |-> FALSE, exp |-> "no prefix is accepted"]
    [] OTHER -> LET bad == {g \in Range(c.out.groups) : ~ReadOk(g) /\ ~Unprotected(g)} IN
                IF bad = {} THEN [ok |-> TRUE] ELSE [ok |-> FALSE, exp |-> [not_allowed |-> bad]]
=============================================================================
