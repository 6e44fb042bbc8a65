----------------------------- MODULE Posterior -----------------------------
(***************************************************************************)
(* C06: a posterior object answers for the parameters passed in.           *)
(* The model problem is exact in integers: scene parameters q = j z,       *)
(*   ln-likelihood -sum w_i q_i^2, prior c * sum e_i q_i, log-volume term  *)
(*   sum d_i z_i (added only in sampling mode), objective scaled by ndof.  *)
(* st.arr[a]: index of the value vector the caller's array a now holds;    *)
(* st.prior, st.samp: current prior and mode; st.last: key of the last     *)
(* query if only queries followed it ("fresh" cache), else <<>>.           *)
(* cfg.vals: value vectors, cfg.w, cfg.d, cfg.c (prior coefficients).      *)
(***************************************************************************)
EXTENDS Geo, TLC
Has2(r, f) == f \in DOMAIN r
InitState(c) == [cfg |-> c, arr |-> c.arr, prior |-> c.prior, samp |-> c.samp, last |-> <<>>, evals |-> 0]
Dim(c) == 1..Len(c.w)
LnP(c, v, p, m) == LET z == c.vals[v] IN
   - Sum([k \in Dim(c) |-> c.w[k] * c.j[k] * c.j[k] * z[k] * z[k]]) + c.c[p] * Sum([k \in Dim(c) |-> c.e[k] * c.j[k] * z[k]])
   + IF m THEN Sum([k \in Dim(c) |-> c.d[k] * z[k]]) ELSE 0
Grad(c, v, p, m) == LET z == c.vals[v] IN
   [k \in Dim(c) |-> (-2 * c.w[k] * c.j[k] * z[k] + c.c[p] * c.e[k]) * c.j[k] + IF m THEN c.d[k] ELSE 0]
Neg(g) == [k \in DOMAIN g |-> -g[k]]
Twice(g) == [k \in DOMAIN g |-> 2 * g[k]]
\* objective values are reported doubled so that ndof = 2 stays integral
Scaled(c, x) == IF c.ndof = 1 THEN 2 * x ELSE x
ScaledV(c, g) == [k \in DOMAIN g |-> Scaled(c, g[k])]
Key(st, a) == <<st.arr[a], st.prior, st.samp>>

Apply(st, ev) ==
  CASE ev.op = "set" -> [st EXCEPT !.arr[ev.a] = ev.v, !.last = <<>>, !.evals = ev.evals]
    [] ev.op = "query" -> [st EXCEPT !.last = Key(st, ev.a), !.evals = ev.evals]
    [] ev.op = "prior" -> [st EXCEPT !.prior = ev.p, !.last = <<>>, !.evals = ev.evals]
    [] ev.op = "mode" -> [st EXCEPT !.samp = ev.m, !.last = <<>>, !.evals = ev.evals]
    [] ev.op = "resid" -> [st EXCEPT !.last = <<>>, !.evals = ev.evals]
    [] OTHER -> st

Verdict(st, ev) ==
  IF Has2(ev, "exc") THEN "operation failed" ELSE
  CASE ev.op = "query" ->
         LET c == st.cfg
             v == st.arr[ev.a]
             L == LnP(c, v, st.prior, st.samp)
             G == Grad(c, v, st.prior, st.samp)
         IN IF ev.q = "lnprob" /\ ev.lnp # L THEN "ln-probability of other parameters" ELSE
            IF ev.q = "grad" /\ ev.g # G THEN "gradient of other parameters" ELSE
            IF ev.q = "both" /\ (ev.lnp # L \/ ev.g # G) THEN "combined query of other parameters" ELSE
            IF ev.q = "nll" /\ (ev.lnp # -Scaled(c, L) \/ ev.g # Neg(ScaledV(c, G))) THEN "objective of other parameters" ELSE
            IF ev.q = "nllng" /\ ev.lnp # -Scaled(c, L) THEN "objective value of other parameters" ELSE
            IF st.last = Key(st, ev.a) /\ ev.evals # st.evals THEN "repeated query evaluated the likelihood again" ELSE
            IF ev.touched THEN "the query changed the caller's parameters" ELSE ""
    [] ev.op = "resid" -> IF ev.r # st.cfg.vals[ev.v] THEN "residuals of other parameters" ELSE
                          IF ev.rr # ev.rr0 THEN "residual request changed the residual switch" ELSE ""
    [] OTHER -> ""
=============================================================================
