------------------------------- MODULE MixFit -------------------------------
(***************************************************************************)
(* C22: fitting a Gaussian mixture to a point-spread-function image, the   *)
(* stored form of the fit, and reading it back.  A trace is one session:   *)
(*   fit     one call of the fitter; every answer with what it claims      *)
(*           about itself and what its parameters say                      *)
(*   mixture one call of the driver that writes the HDF5 file              *)
(*   read    a stored mixture read back as a point-spread function         *)
(* held: digests of the parameters of every answer returned so far; an     *)
(* answer never changes after it was returned.                             *)
(* Units: amplitudes and moments 1e-6, likelihoods 1e-6, images 1e-6 of    *)
(* the peak, gains 1/1000 of the convergence threshold.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
InitState(c) == [cfg |-> c, held |-> <<>>]
Apply(st, ev) == IF "held" \in DOMAIN ev THEN [st EXCEPT !.held = ev.held] ELSE st
AbsV(x) == IF x < 0 THEN -x ELSE x
Near(p, tol) == AbsV(p[1] - p[2]) <= tol
Prefix(s, t) == Len(s) <= Len(t) /\ \A k \in 1..Len(s) : s[k] = t[k]
\* an answer's own account: model image, residual and likelihood belong to its parameters
Self(a) ==
  IF a.recon > 2 THEN "an answer's model image is not that of its parameters" ELSE
  IF ~a.orig THEN "an answer holds another image" ELSE
  IF ~Near(a.err, 2) THEN "an answer's residual is not that of its model" ELSE
  IF a.ll # <<>> /\ ~Near(a.ll, 3) THEN "an answer's likelihood is not that of its parameters" ELSE ""
\* after at least one maximisation step the mixture has the image's moments
Moments(a) ==
  IF ~Near(a.amp, 2) THEN "amplitudes do not sum to one" ELSE
  IF \E k \in 1..5 : ~Near(a.mom[k], 4) THEN "the mixture does not have the image's centroid and second moments" ELSE ""
Peak(a) ==
  IF a.gain > 40000 THEN "an answer that claims convergence can still be improved" ELSE
  IF a.gain < -2 THEN "the likelihood can decrease" ELSE ""
First(s) == LET b == {k \in 1..Len(s) : s[k] # ""} IN
  IF b = {} THEN "" ELSE s[CHOOSE k \in b : \A j \in b : k <= j]
AnswerBad(ev, a) ==
  LET s == Self(a) IN
  IF s # "" THEN s ELSE
  IF ev.opt # "em" \/ a.kind = "nan" THEN "" ELSE
  LET m == Moments(a) IN
  IF m # "" THEN m ELSE
  IF a.kind = "ok" THEN Peak(a) ELSE ""
Fit(st, ev) ==
  IF ~ev.same THEN "the image was modified" ELSE
  IF Len(ev.ans) # (IF ev.full THEN ev.repeat ELSE 1) THEN "not one answer per requested start" ELSE
  LET b == First([k \in 1..Len(ev.ans) |-> AnswerBad(ev, ev.ans[k])]) IN
  IF b # "" THEN b ELSE
  IF \E k \in 2..Len(ev.climb) : ev.climb[k] < ev.climb[k - 1] - 2 THEN "iterating longer gave a lower likelihood" ELSE
  IF ev.best # <<>> /\ ev.best[1] > ev.best[2] + 2 THEN "the answer returned is not the best one" ELSE
  IF ~Prefix(st.held, ev.held) THEN "an answer changed after it was returned" ELSE ""
RowBad(r) ==
  IF ~Near(r.amp, 20) THEN "stored amplitudes do not sum to one" ELSE
  IF r.kind = "ok" /\ \E k \in 1..5 : ~Near(r.mom[k], 60) THEN "the stored mixture does not have the image's moments about the centre of the full image" ELSE
  IF r.render > 200 THEN "a stored model is not the image of its stored parameters" ELSE
  IF r.kind = "ok" /\ ~Near(r.ll, 20) THEN "a stored likelihood is not that of its model" ELSE ""
Mixture(st, ev) ==
  IF ev.nrow # ev.repeat \/ Len(ev.rows) # ev.repeat THEN "not one stored solution per requested start" ELSE
  IF ~ev.file THEN "the file does not hold what was returned" ELSE
  IF ~ev.attrs THEN "the file does not describe its own fit" ELSE
  IF \E k \in 1..2 : AbsV(ev.start[k] - ev.want[k]) > 1 \/ AbsV(ev.stop[k] - ev.want[k + 2]) > 1 THEN "another section of the image was fitted" ELSE
  IF ~Near(ev.frac, 5) THEN "the fraction of the light in the section is wrong" ELSE
  IF ev.data > 2 THEN "the stored image is not the normalised section" ELSE
  LET b == First([k \in 1..Len(ev.rows) |-> RowBad(ev.rows[k])]) IN
  IF b # "" THEN b ELSE
  IF ~Prefix(st.held, ev.held) THEN "an answer changed after it was returned" ELSE ""
Read(st, ev) ==
  IF ev.n # ev.want THEN "another number of components was read" ELSE
  IF ev.render > ev.tol THEN "the mixture read is not the one stored" ELSE
  IF ~ev.tuples THEN "the component list is not the mixture's" ELSE ""
Verdict(st, ev) ==
  IF "exc" \in DOMAIN ev THEN ev.op \o " failed: " \o ev.exc ELSE
  CASE ev.op = "fit" -> Fit(st, ev) [] ev.op = "mixture" -> Mixture(st, ev) [] ev.op = "read" -> Read(st, ev)
=============================================================================
