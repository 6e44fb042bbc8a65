------------------------------- MODULE Bounds -------------------------------
(***************************************************************************)
(* C14: prior bounds, their adjustment and checking, the map from sampling  *)
(* to scene parameters, and barrier priors.                                 *)
(*                                                                          *)
(* Fluxes are signed squares sg*(S/4)^2, so the square root of the default  *)
(* noise model is exact; U is twice the number of sigmas.  Sampling         *)
(* positions are z = ln(k/m), where the sigmoid is exactly k/(k+m); reals   *)
(* are Q22 (FixedPoint), each parameter in its own unit.                    *)
(***************************************************************************)
EXTENDS FixedPoint
Has2(r, f) == f \in DOMAIN r
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
Idx(q) == 1..Len(q)

\* ---- default flux bounds, units of 1/16 ----
Flux(x) == x.sg * x.s * x.s
DefLo(x, U) == LET d == Flux(x) - 2 * U * x.s IN IF Flux(x) <= U * U THEN Mn(d, -(U * U)) ELSE d
DefHi(x, U) == Mx(Flux(x) + 2 * U * x.s, U * U)
\* ---- from a precision matrix, units of 1; sig is the marginal uncertainty ----
PrecSig(x) == Mx(x.sig, x.f \div 10)
PrecLo(x, u) == x.f - u * PrecSig(x)
PrecHi(x, u) == Mx(x.f + u * PrecSig(x), u * PrecSig(x))
\* a negative flux may or may not be floored in absolute value
PrecOK(x, u, lo, hi) ==
  \/ Near(lo, 1000 * PrecLo(x, u), 5) /\ Near(hi, 1000 * PrecHi(x, u), 5)
  \/ x.f < 0 /\ LET s == Mx(x.sig, (-x.f) \div 10) IN Near(lo, 1000 * (x.f - u * s), 5) /\ Near(hi, 1000 * Mx(x.f + u * s, u * s), 5)
\* ---- catalogue bounds, units of 1/640 ----
CatLo(x, U) == IF Has2(x, "unc") THEN 40 * Flux(x) - U * Mx(20 * x.unc, x.s * x.s) ELSE 40 * DefLo(x, U)
CatHi(x, U) == IF Has2(x, "unc") THEN 40 * Flux(x) + U * Mx(20 * x.unc, x.s * x.s) ELSE 40 * DefHi(x, U)

FluxVerdict(ev) ==
  IF Has2(ev, "exc") THEN "flux bounds raise " \o ev.exc ELSE
  IF Len(ev.lo) # Len(ev.src) \/ Len(ev.hi) # Len(ev.src) THEN "flux bounds do not come one per source" ELSE
  IF \E i \in Idx(ev.src) : ~(ev.lo[i] < Flux(ev.src[i]) /\ Flux(ev.src[i]) < ev.hi[i]) THEN "flux bounds do not contain the flux" ELSE
  IF \E i \in Idx(ev.src) : ~Near(ev.lo[i], DefLo(ev.src[i], ev.u), 0) \/ ~Near(ev.hi[i], DefHi(ev.src[i], ev.u), 0) THEN "flux bounds are not of the configured width" ELSE ""
PrecVerdict(ev) ==
  IF Has2(ev, "exc") THEN "flux bounds raise " \o ev.exc ELSE
  IF \E i \in Idx(ev.src) : ~(ev.lo[i] < 1000 * ev.src[i].f /\ 1000 * ev.src[i].f < ev.hi[i]) THEN "flux bounds do not contain the flux" ELSE
  IF \E i \in Idx(ev.src) : ~PrecOK(ev.src[i], ev.u, ev.lo[i], ev.hi[i]) THEN "flux bounds are not those of the marginal uncertainty" ELSE ""

\* positions in units of 0.01 mas: half-widths asked for, and 1/cos(dec) = cd/cn
MakeVerdict(ev) ==
  LET bad(i) == LET r == ev.row[i]  o == ev.out[i] IN
        IF \E b \in Idx(r.f) : ~(o.f[b][1] < 40 * Flux(r.f[b]) /\ 40 * Flux(r.f[b]) < o.f[b][2]) THEN "a flux is not inside its bounds" ELSE
        IF \E b \in Idx(r.f) : ~Near(o.f[b][1], CatLo(r.f[b], ev.u), 1) \/ ~Near(o.f[b][2], CatHi(r.f[b], ev.u), 1) THEN "flux bounds are not of the configured width" ELSE
        IF ~(o.ra[1] < 0 /\ o.ra[2] > 0 /\ o.dec[1] < 0 /\ o.dec[2] > 0) THEN "a position is not inside its bounds" ELSE
        IF \E k \in {1, 2} : ~Near(FAbs(o.ra[k]) * r.cn, r.dra * r.cd, 2 * r.cd) \/ ~Near(FAbs(o.dec[k]), r.ddec, 2) THEN "position bounds are not of the configured width" ELSE
        IF o.q # ev.rq \/ o.pa # ev.rpa \/ o.sersic # ev.rs \/ o.rhalf # ev.rr THEN "shape bounds are not the configured ranges" ELSE ""
      B == {i \in Idx(ev.row) : bad(i) # ""}
  IN IF Has2(ev, "exc") THEN "making bounds raises " \o ev.exc ELSE
     IF Len(ev.out) # Len(ev.row) THEN "bounds do not come one per source" ELSE
     IF ~ev.same THEN "making bounds changed the catalogue" ELSE
     IF B # {} THEN bad(CHOOSE i \in B : TRUE) ELSE ""

\* ---- adjusting: state is one band's lower, upper, flux of every source; eps is one unit ----
AdjLo(x, a) == IF a.hasmin THEN Mn(x.lo, a.min) ELSE x.lo
AdjHi(x, a) == IF a.fac > 0 THEN Mx(x.hi, x.f * a.fac) ELSE x.hi
Adjusted(x, a) ==
  LET l == AdjLo(x, a)  h == AdjHi(x, a)
  IN [lo |-> l, hi |-> h, f |-> IF a.move THEN Mn(Mx(x.f, l + 1), h - 1) ELSE x.f]
Inside(x) == x.lo < x.f /\ x.f < x.hi
AllInside(B) == \A b \in Idx(B), i \in Idx(B[1]) : Inside(B[b][i])
AdjustAll(B, a) == [b \in Idx(B) |-> [i \in Idx(B[b]) |-> Adjusted(B[b][i], a)]]
AdjustVerdict(ev) ==
  LET want == AdjustAll(ev.inp, ev.a)
  IN \* a scene reports sources that are still outside their bounds
     IF ev.scene /\ ~AllInside(want) THEN (IF Has2(ev, "exc") /\ ev.exc = "AssertionError" THEN "" ELSE "a flux outside its bounds is not reported") ELSE
     IF Has2(ev, "exc") THEN "adjusting bounds raises " \o ev.exc ELSE
     IF \E b \in Idx(want), i \in Idx(want[1]) : ev.out[b][i].lo > ev.inp[b][i].lo \/ ev.out[b][i].hi < ev.inp[b][i].hi THEN "adjusting narrowed a bound" ELSE
     IF ev.a.move /\ ~AllInside(ev.out) THEN "a flux is not inside its adjusted bounds" ELSE
     IF ev.out # want THEN "bounds or fluxes are not adjusted as configured" ELSE
     IF ~ev.same THEN "adjusting changed something else" ELSE ""
CheckVerdict(ev) ==
  IF Has2(ev, "exc") /\ ev.exc # "AssertionError" THEN "checking bounds raises " \o ev.exc ELSE
  IF Has2(ev, "exc") /\ AllInside(ev.inp) THEN "values inside their bounds are reported" ELSE
  IF ~Has2(ev, "exc") /\ ~AllInside(ev.inp) THEN "a value outside its bounds is not reported" ELSE ""

\* ---- the sampling map ----
Ratio(n, d) == (One \div d) * n + ((One % d) * n) \div d
Frac(ev, i) == Ratio(ev.k[i], ev.k[i] + ev.m[i])
Rng(ev, i) == ev.hi[i] - ev.lo[i]
Jac(ev, i) == FMul(Rng(ev, i), FMul(Frac(ev, i), One - Frac(ev, i)))
RECURSIVE FProd(_, _)
FProd(q, n) == IF n = 0 THEN One ELSE FMul(q[n], FProd(q, n - 1))
MapVerdict(ev) ==
  LET n == Len(ev.k) IN
  IF Has2(ev, "exc") THEN "the map raises " \o ev.exc ELSE
  IF Len(ev.fwd) # n \/ Len(ev.inv) # n \/ Len(ev.jac) # n \/ Len(ev.lg) # n THEN "the map does not keep the number of parameters" ELSE
  IF \E i \in 1..n : ~(ev.lo[i] < ev.fwd[i] /\ ev.fwd[i] < ev.hi[i]) THEN "the map leaves the bounds" ELSE
  IF \E i \in 1..n : ~Near(ev.fwd[i], ev.lo[i] + FMul(Rng(ev, i), Frac(ev, i)), 40) THEN "the map is not the sigmoid between the bounds of its own parameter" ELSE
  IF \E i \in 1..n : ~Near(ev.inv[i] * ev.m[i], ev.k[i] * One, 64 * (ev.k[i] + ev.m[i])) THEN "the inverse map is not the inverse" ELSE
  IF \E i \in 1..n : ~Near(ev.jac[i], Jac(ev, i), 64) THEN "the derivative of the map is wrong" ELSE
  IF \E i \in 1..n : ~Near(ev.lg[i], One - 2 * Frac(ev, i), 64) THEN "the gradient of the log-volume is wrong" ELSE
  IF n <= 3 /\ ~Near(ev.vol, FProd([i \in 1..n |-> Jac(ev, i)], n), 200) THEN "the log-volume is not that of the derivative" ELSE
  \* sum over parameters, units of 2^-16
  IF ~Near(ev.lnd, FSum(ev.parts), 4 + 2 * n) THEN "the log-volume is not the sum over the parameters" ELSE
  IF \E r \in Idx(ev.rows), i \in 1..n : ~Near(ev.rows[r][i], ev.lo[i] + FMul(Rng(ev, i), Ratio(ev.rk[r][i], ev.rk[r][i] + ev.rm[r][i])), 40) THEN "a chain of positions is not mapped row by row" ELSE ""
\* far out: never outside the bounds, everything finite; monotone
FarVerdict(ev) ==
  IF Has2(ev, "exc") THEN "the map raises " \o ev.exc ELSE
  IF \E i \in Idx(ev.cl) : ev.cl[i] < 0 \/ ev.cu[i] > 0 THEN "the map leaves the bounds" ELSE
  IF ~ev.finite THEN "the map, its derivative or log-volume is not finite" ELSE
  IF \E i \in Idx(ev.up) : ev.up[i] < 0 THEN "the map is not monotone" ELSE ""
\* the identity map
IdentVerdict(ev) ==
  IF Has2(ev, "exc") THEN "the map raises " \o ev.exc ELSE
  IF ev.fwd # ev.z \/ ev.inv # ev.z \/ ev.lnd # 0 THEN "the identity map is not the identity" ELSE
  IF \E i \in Idx(ev.z) : ev.jac[i] # 1 \/ ev.lg[i] # 0 THEN "the derivative of the identity map is wrong" ELSE ""
\* barrier: units of the interval; v[j] = value at x + j*h (j = -2, -1, 1, 2) with only component c moved, unit 1/64 of Q22
Slope5(v, inv12h) == (8 * (v[3] - v[2]) - (v[4] - v[1])) * inv12h
BarrierVerdict(ev) ==
  IF Has2(ev, "exc") THEN "the prior raises " \o ev.exc ELSE
  IF ~ev.finite THEN "the prior is not finite inside the bounds" ELSE
  IF Len(ev.g) # Len(ev.v) THEN "the gradient does not come one per parameter" ELSE
  \* v is Q16; h = 1/192, so 1/(12 h) = 16; g is Q16
  IF \E c \in Idx(ev.v) : ~Near(ev.g[c], Slope5(ev.v[c], 16), 1300 + FAbs(ev.g[c]) \div 200) THEN "the gradient of the prior is not its slope" ELSE
  IF ev.bar /\ \E c \in Idx(ev.v) : (2 * ev.k[c] > ev.k[c] + ev.m[c] /\ ev.g[c] >= 0) \/ (2 * ev.k[c] < ev.k[c] + ev.m[c] /\ ev.g[c] <= 0) THEN "the barrier does not push away from the nearer bound" ELSE ""
\* a prepared model: bounds by token, in the order of the parameter vector
PrepVerdict(ev) ==
  IF Has2(ev, "exc") THEN "preparing a model raises " \o ev.exc ELSE
  IF ev.lo # ev.wlo \/ ev.hi # ev.whi THEN "the bounds are not in the order of the parameter vector" ELSE
  IF Len(ev.q) # Len(ev.wlo) THEN "the parameter vector does not match the bounds" ELSE
  IF \E i \in Idx(ev.q) : ~(ev.lo[i] < ev.q[i] /\ ev.q[i] < ev.hi[i]) THEN "the starting vector is not inside the bounds" ELSE
  IF \E i \in Idx(ev.q) : ~Near((ev.k[i] + ev.m[i]) * (ev.at[i] - ev.lo[i]), ev.k[i] * (ev.hi[i] - ev.lo[i]), 3 * (ev.k[i] + ev.m[i])) THEN "the model's map is not between its own bounds" ELSE ""

InitState(c) == [n |-> 0]
Apply(st, ev) == [st EXCEPT !.n = @ + 1]
Verdict(st, ev) ==
  CASE ev.op = "flux" -> FluxVerdict(ev)
    [] ev.op = "prec" -> PrecVerdict(ev)
    [] ev.op = "make" -> MakeVerdict(ev)
    [] ev.op = "adjust" -> AdjustVerdict(ev)
    [] ev.op = "check" -> CheckVerdict(ev)
    [] ev.op = "map" -> MapVerdict(ev)
    [] ev.op = "far" -> FarVerdict(ev)
    [] ev.op = "ident" -> IdentVerdict(ev)
    [] ev.op = "barrier" -> BarrierVerdict(ev)
    [] ev.op = "prep" -> PrepVerdict(ev)
    [] OTHER -> "trace: unknown event"
=============================================================================
