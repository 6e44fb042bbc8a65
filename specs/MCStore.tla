------------------------------ MODULE MCStore ------------------------------
(* Histories of adding, re-adding, refusing and reopening; the store file  *)
(* is modelled as a tree in which a key may also be the directory of       *)
(* another key, and replacing a node must not remove its children.         *)
EXTENDS Geo, TLC, Json
CONSTANTS Keys, Versions, Depth
VARIABLES last, tree, hist
vars == <<last, tree, hist>>
None == 0
Init == last = [k \in Keys |-> None] /\ tree = {} /\ hist = <<>>
\* tree: set of <<key, version>> data nodes
Add(k, v) == /\ last' = [last EXCEPT ![k] = v]
             /\ tree' = {n \in tree : n[1] # k} \cup {<<k, v>>}
             /\ hist' = Append(hist, [op |-> "add", key |-> k, v |-> v])
Refuse(k) == UNCHANGED <<last, tree>> /\ hist' = Append(hist, [op |-> "refuse", key |-> k, v |-> 0])
Reopen == UNCHANGED <<last, tree>> /\ hist' = Append(hist, [op |-> "open", key |-> "", v |-> 0])
Next == Len(hist) < Depth /\ (Reopen \/ \E k \in Keys : Refuse(k) \/ \E v \in Versions : Add(k, v))
LastVersion == tree = {<<k, last[k]>> : k \in {k \in Keys : last[k] # None}}
View == <<tree, IF hist = <<>> THEN 0 ELSE hist[Len(hist)], Len(hist)>>
Emit == PrintT("EDGE " \o ToJson(hist'))
=============================================================================
