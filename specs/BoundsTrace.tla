---------------------------- MODULE BoundsTrace ----------------------------
EXTENDS Bounds, TraceIO
VARIABLES tid, i, st
TInit == tid \in 1..Len(Traces) /\ i = 1 /\ st = InitState(0)
TNext == /\ i <= Len(Traces[tid].ev)
         /\ tid' = tid
         /\ LET ev == Traces[tid].ev[i]
                bad == Verdict(st, ev)
            IN IF bad = "" THEN st' = Apply(st, ev) /\ i' = i + 1
               ELSE Reject(tid, i, bad) /\ st' = st /\ i' = 1000000 + i
=============================================================================
