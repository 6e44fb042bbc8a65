-------------------------------- MODULE MCMix -------------------------------
(* The fitter's control: every start runs to one answer, by convergence,   *)
(* by a failed (undefined) step or by the iteration limit, over an exact   *)
(* integer version of expectation-maximisation (points 1..P with weights   *)
(* w, each point wholly given to the component with the nearest mean).     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS P, W, Limit, Starts
VARIABLES w, asg, it, pc, dist, answers, left, starts
Pts == 1..P
RECURSIVE SumW(_, _, _)
SumW(f, S, e) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN f[p] * p ^ e + SumW(f, S \ {p}, e)
Of(a, k) == {p \in Pts : a[p] = k}
N(f, a, k) == SumW(f, Of(a, k), 0)
S1(f, a, k) == SumW(f, Of(a, k), 1)
S2(f, a, k) == SumW(f, Of(a, k), 2)
Undefined(f, a) == N(f, a, 1) = 0 \/ N(f, a, 2) = 0
\* squared deviation about the component means, times N1 N2
Dist(f, a) == LET n1 == N(f, a, 1)  n2 == N(f, a, 2) IN
  (S2(f, a, 1) * n1 - S1(f, a, 1) ^ 2) * n2 * n2 + (S2(f, a, 2) * n2 - S1(f, a, 2) ^ 2) * n1 * n1
DistDen(f, a) == N(f, a, 1) ^ 2 * N(f, a, 2) ^ 2
\* |p - S1/N| compared between the components, in integers
Closer1(f, a, p) == LET n1 == N(f, a, 1)  n2 == N(f, a, 2)
                        d1 == n2 * (p * n1 - S1(f, a, 1))  d2 == n1 * (p * n2 - S1(f, a, 2))
                    IN d1 * d1 <= d2 * d2
Step(f, a) == [p \in Pts |-> IF Closer1(f, a, p) THEN 1 ELSE 2]
Init == /\ w \in [Pts -> 1..W] /\ asg \in [Pts -> {1, 2}] /\ it = 0 /\ pc = "run" /\ dist = <<>>
        /\ answers = <<>> /\ left \in 1..Starts /\ starts = left
Answer(k, a) == /\ answers' = Append(answers, [kind |-> k, asg |-> a])
                /\ left' = left - 1
                /\ pc' = IF left = 1 THEN "done" ELSE "start"
                /\ UNCHANGED <<w, asg, it, dist, starts>>
Run == /\ pc = "run"
       /\ IF Undefined(w, asg) THEN Answer("nan", asg)
          ELSE IF it = Limit THEN Answer("limit", asg)
          ELSE IF Step(w, asg) = asg THEN Answer("ok", asg)
          ELSE /\ dist' = <<Dist(w, asg), DistDen(w, asg)>>
               /\ asg' = Step(w, asg) /\ it' = it + 1 /\ UNCHANGED <<w, pc, answers, left, starts>>
Again == /\ pc = "start" /\ asg' \in [Pts -> {1, 2}] /\ it' = 0 /\ dist' = <<>> /\ pc' = "run" /\ UNCHANGED <<w, answers, left, starts>>
Next == Run \/ Again
Spec == Init /\ [][Next]_<<w, asg, it, pc, dist, answers, left, starts>> /\ WF_asg(Run)
\* the mixture keeps the image's total and centroid whatever the assignment
Conserved == 
  /\ N(w, asg, 1) + N(w, asg, 2) = SumW(w, Pts, 0)
  /\ S1(w, asg, 1) + S1(w, asg, 2) = SumW(w, Pts, 1)
  /\ S2(w, asg, 1) + S2(w, asg, 2) = SumW(w, Pts, 2)
Climbs == (dist # <<>> /\ ~Undefined(w, asg)) => Dist(w, asg) * dist[2] <= dist[1] * DistDen(w, asg)
Stationary == \A k \in 1..Len(answers) : answers[k].kind = "ok" => Step(w, answers[k].asg) = answers[k].asg
OneEach == pc = "done" => Len(answers) = starts
Kept == [][\A k \in 1..Len(answers) : answers'[k] = answers[k]]_answers
Emit == pc' # "done" \/ PrintT("EDGE " \o ToJson([k \in 1..Len(answers') |-> answers'[k].kind]))
=============================================================================
