-------------------------------- MODULE Pipe --------------------------------
(* Writing through a buffer to a destination that can fail, and reading back what it received.            *)
(*                                                                                                        *)
(* The producer makes Total units; the buffer holds one chunk, at most Chunk units, and hands it over in  *)
(* one call when it is full or at the end. The destination answers each call: all is written, or the call *)
(* fails with none, part or all of it written. The last unit is the end of the directory, without which a *)
(* package cannot be opened.                                                                              *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Total, Chunk, MaxFaults, Modes, SourceFaults
VARIABLES made,     \* units made
          buf,      \* units in the buffer
          dest,     \* units received by the destination, as ranges: number received in order, or gap
          gap,      \* the destination has received something after missing something
          plan,     \* answers of the destination so far
          broken,   \* the buffer has seen a failure: it hands nothing over any more
          src,      \* a source failed
          pc, result

vars == <<made, buf, dest, gap, plan, broken, src, pc, result>>
Faults(p) == Cardinality({i \in DOMAIN p : p[i] # "ok"})
Received(n, mode) == CASE mode = "ok" -> n [] mode = "none" -> 0 [] mode = "part" -> n \div 2 [] mode = "all" -> n

Init == made = 0 /\ buf = 0 /\ dest = 0 /\ gap = FALSE /\ plan = <<>> /\ broken = FALSE /\ src = FALSE /\ pc = "run" /\ result = "none"

Make == /\ pc = "run" /\ made < Total /\ buf < Chunk
        /\ made' = made + 1 /\ buf' = buf + 1
        /\ UNCHANGED <<dest, gap, plan, broken, src, pc, result>>
(* What the producer copies from, an attachment, can fail as well: it stops.                              *)
SourceFails == /\ pc = "run" /\ SourceFaults /\ made < Total - 1 /\ ~src
               /\ src' = TRUE /\ pc' = "done" /\ result' = "error"
               /\ UNCHANGED <<made, buf, dest, gap, plan, broken>>
HandOver == /\ pc = "run" /\ ~broken /\ buf > 0 /\ (buf = Chunk \/ made = Total)
            /\ \E mode \in {"ok"} \cup Modes :
                 /\ mode # "ok" => Faults(plan) < MaxFaults
                 /\ plan' = Append(plan, mode)
                 /\ dest' = IF gap THEN dest ELSE dest + Received(buf, mode)
                 /\ gap' = (gap \/ Received(buf, mode) < buf)
                 /\ broken' = (mode # "ok")
            /\ buf' = 0
            /\ UNCHANGED <<made, src, pc, result>>
(* A broken buffer takes what it is given and remembers the failure.                                      *)
Discard == pc = "run" /\ broken /\ buf > 0 /\ buf' = 0 /\ UNCHANGED <<made, dest, gap, plan, broken, src, pc, result>>
(* The producer may stop at a failure as soon as it sees it, or see it when it closes.                    *)
Stop == /\ pc = "run" /\ broken
        /\ pc' = "done" /\ result' = "error"
        /\ UNCHANGED <<made, buf, dest, gap, plan, broken, src>>
Close == /\ pc = "run" /\ made = Total /\ buf = 0
         /\ pc' = "done" /\ result' = IF broken THEN "error" ELSE "ok"
         /\ UNCHANGED <<made, buf, dest, gap, plan, broken, src>>
Next == Make \/ HandOver \/ Discard \/ SourceFails \/ Stop \/ Close

Opens == dest = Total /\ ~gap
Reported == pc = "done" => (result = "error" <=> (Faults(plan) > 0 \/ src))
Complete == result = "ok" => Opens
Safe == (pc = "done" /\ Opens) => (made = Total /\ ~src)
=============================================================================
