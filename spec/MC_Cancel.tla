----------------------------- MODULE MC_Cancel -----------------------------
(* Every way in which the end of the context can fall among the elements. The states right after it are   *)
(* printed as the places for the real code: the part whose reading ended it, and how far it was.          *)
EXTENDS Cancel, Json
Emit == (result = "ctx" \/ result = "ok") /\ ended => PrintT("CASE " \o ToJson([at |-> at, result |-> result]))
=============================================================================
