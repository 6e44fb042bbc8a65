--------------------------- MODULE MCDispatchLive ---------------------------
(* The same loop over an abstract, finite state (task identities forgotten, *)
(* iteration counts capped at the target): every fair run ends.             *)
EXTENDS Integers, FiniteSets
CONSTANTS N, S, Target, LimNum, LimDen
VARIABLES niter, out, pc, got
vars == <<niter, out, pc, got>>
Undone == \E s \in 1..S : niter[s] < Target
Cap(x) == IF x > Target THEN Target ELSE x
Init == niter = [s \in 1..S |-> 0] /\ out = {} /\ pc = "loop" /\ got = FALSE
Pick(s) == /\ pc = "loop" /\ Undone /\ s \notin out /\ Cardinality(out) < N
           /\ out' = out \cup {s} /\ got' = TRUE /\ pc' = "collect" /\ UNCHANGED niter
Refused == pc = "loop" /\ Undone /\ out # {} /\ got' = FALSE /\ pc' = "collect" /\ UNCHANGED <<niter, out>>
Sparse == Cardinality(out) * LimDen < LimNum * S
Blocking == Cardinality(out) = N \/ ~Sparse \/ ~got
Collect(ts) == /\ pc = "collect" /\ (Blocking => ts # {})
               /\ niter' = [s \in 1..S |-> IF s \in ts THEN Cap(niter[s] + 1) ELSE niter[s]]
               /\ out' = out \ ts /\ pc' = "loop" /\ got' = got
CollectAny == \E ts \in SUBSET out : Collect(ts)
Finish == pc = "loop" /\ ~Undone /\ pc' = "done" /\ out' = {} /\ got' = got
          /\ niter' = [s \in 1..S |-> IF s \in out THEN Cap(niter[s] + 1) ELSE niter[s]]
Next == (\E s \in 1..S : Pick(s)) \/ Refused \/ CollectAny \/ Finish
FairSpec == Init /\ [][Next]_vars /\ WF_vars(Next) /\ \A s \in 1..S : SF_vars(Pick(s)) /\ SF_vars(pc = "collect" /\ s \in out /\ \E ts \in SUBSET out : s \in ts /\ Collect(ts))
Terminates == <>(pc = "done")
NoWaitEmpty == (pc = "collect" /\ Blocking) => out # {}
Progress == pc = "loop" /\ Undone => Cardinality(out) < N
=============================================================================
