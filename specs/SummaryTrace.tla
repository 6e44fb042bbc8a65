---------------------------- MODULE SummaryTrace ----------------------------
EXTENDS Summary, TraceIO
VARIABLES tid, i, st
TInit == tid \in 1..Len(Traces) /\ i = 1 /\ st = 0
TNext == /\ i <= Len(Traces[tid].ev)
         /\ tid' = tid /\ st' = st
         /\ LET bad == SVerdict(Traces[tid].ev[i])
            IN IF bad = "" THEN i' = i + 1 ELSE Reject(tid, i, bad) /\ i' = 1000000 + i
=============================================================================
