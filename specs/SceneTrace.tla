----------------------------- MODULE SceneTrace -----------------------------
EXTENDS Scene, TraceIO
CONSTANT PROP
VARIABLES tid, i, st
TInit == tid \in 1..Len(Traces) /\ i = 1 /\ st = InitState(Traces[tid].cfg)
Verdict(s, ev) == CASE PROP = "C01" -> V1(s, ev) [] PROP = "C02" -> V2(s, ev)
                    [] PROP = "C03" -> V3(s, ev) [] PROP = "C04" -> V4(s, ev)
TNext == /\ i <= Len(Traces[tid].ev)
         /\ tid' = tid
         /\ LET ev == Traces[tid].ev[i]
                bad == Verdict(st, ev)
            IN IF bad = "" THEN st' = Apply(st, ev) /\ i' = i + 1
               ELSE Reject(tid, i, bad) /\ st' = st /\ i' = 1000000 + i
=============================================================================
