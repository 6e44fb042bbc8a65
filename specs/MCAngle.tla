------------------------------ MODULE MCAngle ------------------------------
(* Reduction, rotation and reversal as steps on one angle, every multiple  *)
(* of Step in +/- Turns half turns and every combination of options.       *)
EXTENDS Ingest, Json
CONSTANTS Step, Turns
VARIABLES n, rot, rev, m, pc
vars == <<n, rot, rev, m, pc>>
Angles == {k * Step : k \in (-(Turns * Half) \div Step)..((Turns * Half) \div Step)}
Init == n \in Angles /\ rot \in BOOLEAN /\ rev \in BOOLEAN /\ m = n /\ pc = "reduce"
Reduce == pc = "reduce" /\ (IF m > Quarter THEN m' = m - Half /\ pc' = pc ELSE IF m < -Quarter THEN m' = m + Half /\ pc' = pc ELSE m' = m /\ pc' = "rotate")
Rotate == pc = "rotate" /\ pc' = "reverse" /\ m' = IF rot THEN (IF m > 0 THEN m - Quarter ELSE m + Quarter) ELSE m
Reverse == pc = "reverse" /\ pc' = "done" /\ m' = IF rev THEN -m ELSE m
Next == (Reduce \/ Rotate \/ Reverse) /\ UNCHANGED <<n, rot, rev>>
Right == pc = "done" => AngleOK(n, rot, rev, m)
Emit == pc' = "done" => PrintT("EDGE " \o ToJson([n |-> n, rot |-> rot, rev |-> rev]))
=============================================================================
