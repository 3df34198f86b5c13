------------------------------ MODULE MC_Lookup ------------------------------
(* Adding resources one after another with every id in 0..MaxId to an asset or object list of the root   *)
(* or of a child, and asking for the unused id in every state.                                           *)
EXTENDS Lookup, Json
CONSTANTS MaxId, Max
VARIABLES root, child

Part0(path) == [path |-> path, assets |-> <<>>, objects |-> <<>>]
Init == root = Part0("/3D/r.model") /\ child = Part0("/3D/c.model")
Size == Len(root.assets) + Len(root.objects) + Len(child.assets) + Len(child.objects)
Add(p, q, id) == q = [p EXCEPT !.assets = Append(@, id)] \/ q = [p EXCEPT !.objects = Append(@, id)]
Next == /\ Size < Max
        /\ \E id \in 0..MaxId :
             \/ \E q \in {[root EXCEPT !.assets = Append(@, id)], [root EXCEPT !.objects = Append(@, id)]} : root' = q /\ UNCHANGED child
             \/ \E q \in {[child EXCEPT !.assets = Append(@, id)], [child EXCEPT !.objects = Append(@, id)]} : child' = q /\ UNCHANGED root
Case == [rootpath |-> root.path, parts |-> <<root, child>>, order |-> <<2, 1>>, stops |-> <<0, 1, 2>>,
         find |-> [k \in 1..(3 * (MaxId + 1)) |-> [path |-> CASE k % 3 = 0 -> "" [] k % 3 = 1 -> root.path [] OTHER -> child.path, id |-> (k - 1) \div 3]]]
(* An unused id really is unused, and adding a resource with it makes the next one unused.               *)
Fresh == \A p \in {root, child} : LET n == Unused(p) IN n > 0 /\ n \notin Ids(p) /\ Unused([p EXCEPT !.objects = Append(@, n)]) > n
Emit == PrintT("CASE " \o ToJson(Case))
==============================================================================
