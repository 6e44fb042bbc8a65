------------------------------- MODULE MCMeta -------------------------------
(* Histories of adding, re-adding, writing/reading and looking (which may  *)
(* cache astrometry); the cache always belongs to the current header.      *)
EXTENDS Geo, TLC, Json
CONSTANTS Keys, Versions, Depth
VARIABLES m, cache, hist
Init == m = [k \in Keys |-> 0] /\ cache = [k \in Keys |-> 0] /\ hist = <<>>
Do(o, k, v) == hist' = Append(hist, [op |-> o, key |-> k, v |-> v])
Add(k, v) == m' = [m EXCEPT ![k] = v] /\ cache' = [cache EXCEPT ![k] = 0] /\ Do("add", k, v)
\* a position lookup builds and keeps astrometry objects for exposures it looks at
Find == cache' = [k \in Keys |-> IF cache[k] = 0 THEN m[k] ELSE cache[k]] /\ m' = m /\ Do("find", "", 0)
File(all) == cache' = [k \in Keys |-> IF all THEN m[k] ELSE 0] /\ m' = m /\ Do(IF all THEN "fileall" ELSE "file", "", 0)
Table == UNCHANGED <<m, cache>> /\ Do("table", "", 0)
Next == Len(hist) < Depth /\ (Find \/ File(TRUE) \/ File(FALSE) \/ Table \/ \E k \in Keys, v \in Versions : Add(k, v))
Coherent == \A k \in Keys : cache[k] \in {0, m[k]}
View == <<m, cache, IF hist = <<>> THEN 0 ELSE hist[Len(hist)], Len(hist)>>
Emit == PrintT("EDGE " \o ToJson(hist'))
=============================================================================
