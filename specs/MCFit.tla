-------------------------------- MODULE MCFit --------------------------------
(***************************************************************************)
(* C21: one worker and one reused patch over a run.  Each task rebuilds the *)
(* patch (nothing subtracted), prepares it (every fixed source subtracted   *)
(* once) and explores; a linear optimisation also replaces the flux bounds, *)
(* so the bounds must travel with the parameters at check-in.               *)
(* Histories of complete rounds are emitted and replayed on real patches.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Rounds, Stages
VARIABLES src, task, sub, mode, hist, n
vars == <<src, task, sub, mode, hist, n>>
S == 1..N
None == [act |-> {}]
\* in = the bounds the parameters are known to lie in
Init == /\ src = [s \in S |-> [p |-> 0, b |-> 0, c |-> 0, in |-> 0]]
        /\ task = None /\ sub = [s \in S |-> 0] /\ mode = [prior |-> "plain", sampling |-> TRUE] /\ hist = <<>> /\ n = 0
Checkout(A) == /\ task = None /\ n < Rounds /\ A # {}
               /\ task' = [act |-> A, of |-> [s \in A |-> src[s]], k |-> 0, lin |-> FALSE]
               /\ n' = n + 1 /\ hist' = Append(hist, [op |-> "checkout", n |-> Cardinality(A), seed |-> CHOOSE s \in A : \A t \in A : s <= t])
               /\ UNCHANGED <<src, sub, mode>>
\* building forgets what was subtracted before; preparing subtracts the fixed sources
Fresh == [s \in S |-> IF s \in task.act THEN 0 ELSE 1]
Optimize(lin, bar) == /\ task # None /\ task.k < Stages
               /\ sub' = Fresh
               /\ task' = [task EXCEPT !.k = @ + 1, !.lin = @ \/ lin,
                           !.of = [s \in task.act |-> [@[s] EXCEPT !.p = @ + 1, !.b = IF lin THEN @ + 1 ELSE @, !.in = IF lin THEN task.of[s].b + 1 ELSE task.of[s].b]]]
               \* the barrier and the optimisation mode are undone when the task ends
               /\ mode' = [prior |-> "plain", sampling |-> TRUE]
               /\ hist' = Append(hist, [op |-> "optimize", lin |-> lin, bar |-> bar]) /\ UNCHANGED <<src, n>>
Sample(tune) == /\ task # None /\ task.k < Stages
               /\ sub' = Fresh
               /\ task' = [task EXCEPT !.k = @ + 1, !.of = [s \in task.act |-> [@[s] EXCEPT !.p = @ + 1, !.c = @ + 1, !.in = task.of[s].b]]]
               /\ hist' = Append(hist, [op |-> "sample", tune |-> tune]) /\ UNCHANGED <<src, n, mode>>
Checkin(newb) == /\ task # None /\ task.k > 0 /\ (task.lin => newb)
               /\ src' = [s \in S |-> IF s \in task.act THEN [task.of[s] EXCEPT !.b = IF newb THEN @ ELSE src[s].b] ELSE src[s]]
               /\ task' = None /\ hist' = Append(hist, [op |-> "checkin", newb |-> newb]) /\ UNCHANGED <<sub, mode, n>>
Next == \/ \E A \in SUBSET S : Checkout(A)
        \/ \E l, b \in BOOLEAN : Optimize(l, b)
        \/ \E t \in BOOLEAN : Sample(t)
        \/ \E b \in BOOLEAN : Checkin(b)
\* every source's parameters lie within the bounds the next task will be given
Contained == \A s \in S : src[s].in = src[s].b
Held == task # None => \A s \in task.act : task.of[s].in = task.of[s].b
\* a task that has run saw its fixed sources subtracted once, its active ones never
Once == task # None /\ task.k > 0 => \A s \in S : sub[s] = IF s \in task.act THEN 0 ELSE 1
Clean == mode.prior = "plain" /\ mode.sampling
Untouched == [][task = None \/ \A s \in S \ task.act : src'[s] = src[s]]_vars
Emit == IF task # None /\ task' = None /\ n = Rounds THEN PrintT("EDGE " \o ToJson(hist')) ELSE TRUE
=============================================================================
