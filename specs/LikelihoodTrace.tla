-------------------------- MODULE LikelihoodTrace --------------------------
EXTENDS Likelihood, TraceIO
VARIABLES tid, i, st
TInit == tid \in 1..Len(Traces) /\ i = 1 /\ st = InitState([t |-> tid])
TNext == /\ i <= Len(Traces[tid].ev)
         /\ tid' = tid
         /\ LET ev == Traces[tid].ev[i]
                full == [st EXCEPT !.cfg = Traces[tid].cfg]
                bad == Verdict(full, ev)
            IN IF bad = "" THEN st' = [Apply(full, ev) EXCEPT !.cfg = st.cfg] /\ i' = i + 1
               ELSE Reject(tid, i, bad) /\ st' = st /\ i' = 1000000 + i
=============================================================================
