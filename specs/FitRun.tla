------------------------------- MODULE FitRun -------------------------------
(***************************************************************************)
(* C21: the work of one worker over a run.  Scenes are checked out, each    *)
(* goes through optimisation and/or sampling tasks on one reused patch, and *)
(* is checked in; the next task of a source starts from what was left.      *)
(*                                                                          *)
(* Identities: the parameters (p), bounds (b) and covariance (c) of each    *)
(* source are digests of the exact values.                                  *)
(* Positions: every parameter value is also given as its place u between    *)
(* its own bounds, in fixed point (0 = lower, One = upper), for each source *)
(* and each parameter in the order of the parameter vector.                 *)
(* Probabilities are divided by a common scale per event.  "fresh" values   *)
(* come from a new patch that has done nothing else.                        *)
(***************************************************************************)
EXTENDS FixedPoint, FiniteSets, TLC
Has2(r, f) == f \in DOMAIN r
None == [stage |-> "none"]
PTol == 4            \* place between the bounds
LTol == 96           \* log-probabilities and gradients: 2e-5 of the event's scale

InitState(c) == [src |-> c.src, niter |-> c.niter, task |-> None]

Inside(u) == \A i \in 1..Len(u) : \A j \in 1..Len(u[i]) : u[i][j] >= 0 /\ u[i][j] <= One
SamePlace(a, b) == /\ Len(a) = Len(b)
                   /\ \A i \in 1..Len(a) : AllNear(a[i], b[i], PTol)
\* all but the first n entries of every source
SameFrom(a, b, n) == /\ Len(a) = Len(b)
                     /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ \A j \in (n + 1)..Len(a[i]) : Near(a[i][j], b[i][j], PTol)

Field(st, q, f) == [k \in 1..Len(q) |-> st.src[q[k]][f]]

\* the task's posterior is that of a fresh patch, at every probed point
SamePost(ev) == /\ Len(ev.probe) > 0
                /\ \A k \in 1..Len(ev.probe) : AllNear(ev.probe[k].here, ev.probe[k].fresh, LTol)

Given(st, ev) == st.task.stage /= "none" /\ ev.p0 = st.task.p /\ ev.b0 = st.task.b

Checkout(st, ev) == <<
  <<"CheckoutRaised", ~Has2(ev, "exc")>>,
  <<"CheckoutState", ~Has2(ev, "exc") => (ev.p = Field(st, ev.act, "p") /\ ev.b = Field(st, ev.act, "b") /\ ev.c = Field(st, ev.act, "c"))>>,
  <<"CheckoutWeights", ~Has2(ev, "exc") => ev.niter = [k \in 1..Len(ev.act) |-> st.niter[ev.act[k]]]>> >>

Optimize(st, ev) == IF Has2(ev, "exc") THEN << <<"OptimizeRaised", FALSE>> >> ELSE <<
  <<"OptimizeGiven", Given(st, ev)>>,
  <<"OptimizePosterior", SamePost(ev)>>,
  <<"OptimizeInitial", SamePlace(ev.uini, ev.ugiven)>>,
  <<"OptimizeInside", Inside(ev.ustart) /\ Inside(ev.uend)>>,
  <<"OptimizeStart", SamePlace(ev.ustart, ev.ubegin)>>,
  <<"OptimizeNoWorse", ev.f1 <= ev.f0 + 8>>,
  <<"OptimizeValue", Near(ev.fun, ev.f1, LTol) /\ Near(ev.lnp, -ev.f1, LTol)>>,
  <<"OptimizeGradient", AllNear(ev.jac, ev.g1, LTol)>>,
  <<"OptimizePlace", SamePlace(ev.upostop, ev.uend) /\ (IF ev.lin THEN SameFrom(ev.ufinal, ev.uend, ev.nb) ELSE SamePlace(ev.ufinal, ev.uend))>>,
  <<"OptimizeKeeps", ev.other1 = ev.other0>>,
  <<"OptimizeBounds", IF ev.lin THEN ev.bshape1 = ev.bshape0 /\ ev.babsent1 = ev.babsent0 ELSE ev.b1 = st.task.b>>,
  <<"OptimizeStages", ev.sp.as = ev.p0 /\ ev.sp.bs = ev.b0 /\ ev.sp.bo = ev.b0 /\ (ev.lin => ev.sp.al = ev.p1 /\ ev.sp.bl = ev.b1)>>,
  <<"LinearPlace", ev.lin => SamePlace(ev.ulin, ev.ufinal)>>,
  <<"LinearOptimum", ev.lin => \A k \in 1..Len(ev.lgrad) : FAbs(ev.lgrad[k]) <= 8192 + ev.ltol>>,
  <<"LinearBetter", ev.lin => ev.l1 >= ev.l0 - LTol - ev.ltol>>,
  \* the new flux bounds hold the flux strictly inside, at the configured number of standard deviations
  <<"LinearBounds", ev.lin => \A k \in 1..Len(ev.lflux) :
       LET x == ev.lflux[k]
           half == ev.nsig * (IF x.sig > x.f \div 10 THEN x.sig ELSE x.f \div 10)
       IN x.lo < x.f /\ x.f < x.hi /\ Near(x.f - x.lo, half, 128 + ev.ltol) /\ Near(x.hi, IF x.f > 0 THEN x.f + half ELSE half, 128 + ev.ltol)>> >>

Sample(st, ev) == IF Has2(ev, "exc") THEN << <<"SampleRaised", FALSE>> >> ELSE <<
  <<"SampleGiven", Given(st, ev)>>,
  <<"SamplePosterior", SamePost(ev)>>,
  <<"SampleStart", SamePlace(ev.uini, ev.ugiven) /\ SamePlace(ev.ustart, ev.ugiven)>>,
  <<"SampleRows", ev.rows = ev.draws + ev.tune /\ ev.ntune = ev.tune /\ ev.nsample = ev.draws>>,
  <<"SampleInside", \A k \in 1..Len(ev.chain) : Inside(ev.chain[k].u)>>,
  <<"SampleValues", \A k \in 1..Len(ev.chain) : Near(ev.chain[k].logp, ev.chain[k].fresh, LTol * 4)>>,
  <<"SampleMetric", ev.tune = 0 => AllNear(ev.metric, ev.given, 16)>>,
  <<"SampleWeight", ev.tune \in 0..100 => ev.weight = ev.tune + (LET m == CHOOSE x \in {st.task.niter[k] : k \in 1..Len(st.task.niter)} :
                                    \A k \in 1..Len(st.task.niter) : x <= st.task.niter[k] IN IF m > 10 THEN m ELSE 10)>>,
  <<"SampleFinal", SamePlace(ev.ufinal, ev.chain[Len(ev.chain)].u)>>,
  <<"SampleKeeps", ev.other1 = ev.other0 /\ ev.b1 = st.task.b>>,
  <<"SampleBlocks", ev.blocks = ev.diag>> >>

Checkin(st, ev) == IF Has2(ev, "exc") THEN << <<"CheckinRaised", FALSE>> >> ELSE
  LET act == st.task.act
      of(s) == CHOOSE k \in 1..Len(act) : act[k] = s
      A == {act[k] : k \in 1..Len(act)}
  IN <<
  <<"CheckinParameters", ev.p = [s \in 1..Len(st.src) |-> IF s \in A THEN st.task.p[of(s)] ELSE st.src[s].p]>>,
  <<"CheckinBounds", ev.b = [s \in 1..Len(st.src) |-> IF s \in A /\ ev.newb THEN st.task.b[of(s)] ELSE st.src[s].b]>>,
  <<"CheckinCovariance", ev.c = [s \in 1..Len(st.src) |-> IF s \in A /\ st.task.newc THEN st.task.c[of(s)] ELSE st.src[s].c]>>,
  <<"CheckinIterations", ev.niter = [s \in 1..Len(st.src) |-> st.niter[s] + (IF s \in A THEN st.task.draws ELSE 0)]>>,
  <<"CheckinReleased", ev.active = 0>> >>

Clauses(st, ev) == CASE ev.op = "checkout" -> Checkout(st, ev)
                     [] ev.op = "optimize" -> Optimize(st, ev)
                     [] ev.op = "sample" -> Sample(st, ev)
                     [] ev.op = "checkin" -> Checkin(st, ev)

Apply(st, ev) ==
  CASE ev.op = "checkout" -> [st EXCEPT !.task = [stage |-> "out", act |-> ev.act, p |-> ev.p, b |-> ev.b, c |-> ev.c, niter |-> ev.niter, newc |-> FALSE, draws |-> 0]]
    [] ev.op = "optimize" -> [st EXCEPT !.task.stage = "opt", !.task.p = ev.p1, !.task.b = ev.b1]
    [] ev.op = "sample" -> [st EXCEPT !.task.stage = "smp", !.task.p = ev.p1, !.task.c = ev.c1, !.task.newc = ev.newc, !.task.draws = @ + ev.draws]
    [] ev.op = "checkin" -> [st EXCEPT !.task = None, !.niter = ev.niter, !.src = [s \in 1..Len(st.src) |-> [p |-> ev.p[s], b |-> ev.b[s], c |-> ev.c[s]]]]

Verdict(st, ev) ==
  LET cl == Clauses(st, ev)
      bad == SelectSeq(cl, LAMBDA c : ~c[2])
  IN IF bad = <<>> THEN "" ELSE bad[1][1]
=============================================================================
