----------------------------- MODULE Likelihood -----------------------------
(***************************************************************************)
(* C08, C09: what a patch's working data, model images, likelihood,         *)
(* gradient, design matrix and linear fluxes must be, in terms of           *)
(*   - the data and weights of each exposure, and                           *)
(*   - "atoms": the image of one source of unit flux in one exposure, and   *)
(*     its slope in each of the six shape parameters, each observed alone   *)
(*     (one source, one exposure, no data).                                 *)
(* The laws are compositional: every evaluation of a patch with several     *)
(* sources, exposures and bands, after any number of fixed sources have     *)
(* been subtracted, is determined by the atoms.                             *)
(*                                                                          *)
(* cfg.exps[e] = [band, d, w2, skip]  data, squared weights (Q22), pixels   *)
(*               whose (weightless) data are wild and not represented       *)
(* cfg.atoms[a] = [im, sl]  im[e] unit image, sl[e][t] slope, Q22           *)
(* A source is [a |-> atom, f |-> flux in each band (Q22, atom units)].     *)
(***************************************************************************)
EXTENDS FixedPoint, FiniteSets, TLC
Has2(r, f) == f \in DOMAIN r
NT == 6
\* tolerances in units of 2^-22
PixTol == 32
DotTol(n) == 48 + 4 * n
\* every subtracted or summed source adds the rounding of one product
Many(k) == IF k > 20 THEN k ELSE 0
PixTolM(k) == PixTol + 4 * Many(k)
DotTolM(n, k) == DotTol(n) + n * (Many(k) \div 8)

InitState(c) == [cfg |-> c, used |-> <<>>, bands |-> <<>>, data |-> <<>>, ready |-> FALSE, nact |-> 0, sub |-> 0]

\* exposures taken, in the order of the requested bands, then as supplied
Taken(st, ev) ==
  LET of(b) == SelectSeq(ev.order, LAMBDA e : st.cfg.exps[e].band = b)
  IN FoldLeft(LAMBDA acc, b : acc \o of(b), <<>>, ev.bands)
Present(st, ev) == SelectSeq(ev.bands, LAMBDA b : \E k \in 1..Len(ev.order) : st.cfg.exps[ev.order[k]].band = b)
Flux(st, s, e) == s.f[st.cfg.exps[e].band]
\* model image of a list of sources in exposure e
Image(st, srcs, e) ==
  LET zero == [i \in 1..Len(st.cfg.exps[e].d) |-> 0]
  IN FoldLeft(LAMBDA acc, s : FAdd(acc, FScale(Flux(st, s, e), st.cfg.atoms[s.a].im[e])), zero, srcs)
Minus(st, data, srcs) == TLCEval([k \in 1..Len(st.used) |-> FSub(data[k], Image(st, srcs, st.used[k]))])
\* compare an observed image of exposure e, leaving out wild pixels
SameImage(st, e, a, b, tol) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol) \/ \E k \in 1..Len(st.cfg.exps[e].skip) : st.cfg.exps[e].skip[k] = i

Apply(st, ev) ==
  IF ev.op = "build"
  THEN LET u == Taken(st, ev) IN [st EXCEPT !.used = u, !.bands = Present(st, ev), !.ready = FALSE, !.sub = 0, !.data = [k \in 1..Len(u) |-> st.cfg.exps[u[k]].d]]
  ELSE IF ev.op = "prepare"
  THEN [st EXCEPT !.ready = TRUE, !.nact = Len(ev.active), !.sub = Len(ev.big) + Len(ev.fixed), !.data = Minus(st, Minus(st, st.data, ev.big), ev.fixed)]
  ELSE st

NPix(st) == FoldLeft(LAMBDA acc, e : acc + Len(st.cfg.exps[e].d), 0, st.used)
KsOf(st, b) == {k \in 1..Len(st.used) : st.cfg.exps[st.used[k]].band = b}
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE IN f[k] + SumOver(f, S \ {k})

\* residual, weighted residual and (r^2 - d^2) w^2 of every exposure for these sources
Terms(st, srcs) ==
  LET K == 1..Len(st.used)
      m == TLCEval([k \in K |-> Image(st, srcs, st.used[k])])
      w2 == [k \in K |-> st.cfg.exps[st.used[k]].w2]
      r == TLCEval([k \in K |-> FSub(st.data[k], m[k])])
  IN [r |-> r,
      wr |-> TLCEval([k \in K |-> FHad(w2[k], r[k])]),
      \* (r^2 - d^2) = m (m - 2 d)
      x2 |-> TLCEval([k \in K |-> FDot(FHad(m[k], FSub(m[k], FAdd(st.data[k], st.data[k]))), w2[k])])]
Chi2(st, T) == SumOver(T.x2, 1..Len(st.used))
BandChi2(st, T, b) == SumOver(T.x2, KsOf(st, b))
\* slope of the likelihood -chi2/2 in the flux of source s in band b, and in its shape parameter t
FluxSlope(st, T, s, b) == SumOver([k \in 1..Len(st.used) |-> FDot(T.wr[k], st.cfg.atoms[s.a].im[st.used[k]])], KsOf(st, b))
ShapeSlope(st, T, s, t) ==
  SumOver([k \in 1..Len(st.used) |-> FMul(Flux(st, s, st.used[k]), FDot(T.wr[k], st.cfg.atoms[s.a].sl[st.used[k]][t]))], 1..Len(st.used))

EvalVerdict(st, ev) ==
  LET n == NPix(st)
      nn == st.sub + Len(ev.src)
      K == 1..Len(st.used)
      T == TLCEval(Terms(st, ev.src))
      \* finite differences: one part in 2000 of the largest possible slope
      slack(s) == SumOver([k \in K |-> FMul(FAbs(Flux(st, s, st.used[k])), FAbsSum(T.wr[k])) \div 2000], K)
  IN IF Len(ev.src) # st.nact THEN "trace: wrong number of sources" ELSE
     IF Has2(ev, "exc") THEN "evaluation raises " \o ev.exc ELSE
     IF Len(ev.r) # Len(st.used) THEN "residuals do not come one per exposure" ELSE
     IF \E k \in K : ~SameImage(st, st.used[k], ev.r[k], T.r[k], PixTolM(nn)) THEN "residual is not data minus the sum of the source images" ELSE
     IF ~Near(2 * ev.lnl + Chi2(st, T), 0, DotTolM(2 * n, nn)) THEN "likelihood is not minus half the sum of squared weighted residual minus data" ELSE
     IF Len(ev.chi2) # Len(st.bands) THEN "chi-square does not come one per band" ELSE
     IF \E j \in 1..Len(st.bands) : ~Near(ev.chi2[j], BandChi2(st, T, st.bands[j]), DotTolM(2 * n, nn)) THEN "chi-square does not split into the bands" ELSE
     IF Len(ev.gf) # Len(ev.src) \/ Len(ev.gs) # Len(ev.src) THEN "gradient has the wrong length" ELSE
     IF \E i \in 1..Len(ev.src), j \in 1..Len(st.bands) : ~Near(ev.gf[i][j], FluxSlope(st, T, ev.src[i], st.bands[j]), DotTolM(n, nn)) THEN "flux gradient is not the slope of the likelihood" ELSE
     IF \E i \in 1..Len(ev.src), t \in 1..NT : ~Near(ev.gs[i][t], ShapeSlope(st, T, ev.src[i], t), DotTolM(n, nn) + slack(ev.src[i])) THEN "shape gradient is not the slope of the likelihood" ELSE
     ""

PrepVerdict(st, ev) ==
  LET want == Minus(st, Minus(st, st.data, ev.big), ev.fixed)
      nsub == Len(ev.big) + Len(ev.fixed)
  IN IF Has2(ev, "exc") THEN "preparing a model raises " \o ev.exc ELSE
     IF Len(ev.data) # Len(st.used) THEN "working data do not come one per exposure" ELSE
     IF \E k \in 1..Len(st.used) : ~SameImage(st, st.used[k], ev.data[k], want[k], PixTol + 4 * nsub) THEN "working data are not the data minus each fixed source once" ELSE
     IF ~ev.keptw THEN "weights or coordinates changed" ELSE
     IF ev.nsrc # Len(ev.active) THEN "the model is not ready for the active sources" ELSE
     IF \E i \in 1..Len(ev.active), j \in 1..Len(st.bands) : ~Near(ev.q[i][j], ev.active[i].f[st.bands[j]], 2) THEN "the starting vector does not hold the active fluxes in catalogue order" ELSE
     ""

BandOf(st, b) == SelectSeq(Ix(Len(st.used)), LAMBDA k : st.cfg.exps[st.used[k]].band = b)
DesignVerdict(st, ev) ==
  LET ok(j, i) == LET ks == BandOf(st, st.bands[j]) IN
        Len(ev.x[j][i]) = Len(ks) /\ \A k \in 1..Len(ks) : SameImage(st, st.used[ks[k]], ev.x[j][i][k], st.cfg.atoms[ev.src[i].a].im[st.used[ks[k]]], ev.xtol)
      yok(j) == LET ks == BandOf(st, st.bands[j]) IN
        Len(ev.y[j]) = Len(ks) /\ \A k \in 1..Len(ks) : SameImage(st, st.used[ks[k]], ev.y[j][k], st.data[ks[k]], PixTolM(st.sub))
  IN IF Has2(ev, "exc") THEN "building the design matrix raises " \o ev.exc ELSE
     IF Len(ev.x) # Len(st.bands) \/ Len(ev.y) # Len(st.bands) THEN "the design matrix does not come one per band" ELSE
     IF \E j \in 1..Len(st.bands) : ~yok(j) THEN "the target of the linear fit is not the fixed-subtracted data" ELSE
     IF \E j \in 1..Len(st.bands) : Len(ev.x[j]) # Len(ev.src) THEN "the design matrix does not have a row per source" ELSE
     IF \E j \in 1..Len(st.bands), i \in 1..Len(ev.src) : ~ok(j, i) THEN "a row of the design matrix is not the unit-flux image of its source" ELSE
     ""
\* the linear fluxes: the weighted residual is orthogonal to every source image; precision = X W^2 X'
FitVerdict(st, ev) ==
  LET n == NPix(st)
      atom(i, k) == st.cfg.atoms[ev.src[i].a].im[st.used[k]]
      dot(i, l, k) == FDot(FHad(st.cfg.exps[st.used[k]].w2, atom(i, k)), atom(l, k))
      A(j, i, l) == SumOver([k \in 1..Len(st.used) |-> dot(i, l, k)], KsOf(st, st.bands[j]))
      B(j, i) == SumOver([k \in 1..Len(st.used) |-> FDot(FHad(st.cfg.exps[st.used[k]].w2, st.data[k]), atom(i, k))], KsOf(st, st.bands[j]))
      lhs(j, i) == FoldLeft(LAMBDA acc, l : acc + FMul(A(j, i, l), ev.flux[j][l]), 0, Ix(Len(ev.src)))
      mag(j) == FoldLeft(LAMBDA acc, l : acc + FAbs(ev.flux[j][l]), 0, Ix(Len(ev.src)))
      tol(j) == DotTolM(n, st.sub) * 2 + FMul(DotTolM(n, st.sub) * 2 + 2 * ev.xtol, mag(j))
  IN IF Has2(ev, "exc") THEN "the linear flux fit raises " \o ev.exc ELSE
     IF Len(ev.flux) # Len(st.bands) \/ Len(ev.prec) # Len(st.bands) THEN "linear fluxes do not come one set per band" ELSE
     IF \E j \in 1..Len(st.bands) : Len(ev.flux[j]) # Len(ev.src) THEN "linear fluxes do not come one per source" ELSE
     IF \E j \in 1..Len(st.bands), i, l \in 1..Len(ev.src) : ~Near(ev.prec[j][i][l], A(j, i, l), DotTol(n) + 4 * n * (ev.xtol \div 16 + 1)) THEN "precision matrix is not that of the weighted fit" ELSE
     IF \E j \in 1..Len(st.bands), i \in 1..Len(ev.src) : ~Near(lhs(j, i), B(j, i), tol(j)) THEN "linear fluxes are not the weighted least-squares optimum" ELSE
     ""
RenderVerdict(st, ev) ==
  IF Has2(ev, "exc") THEN "rendering raises " \o ev.exc ELSE
  IF Len(ev.im) # Len(st.used) THEN "rendered images do not come one per exposure" ELSE
  IF \E k \in 1..Len(st.used) : ~SameImage(st, st.used[k], ev.im[k], Image(st, ev.src, st.used[k]), PixTolM(Len(ev.src))) THEN "a rendered image is not the sum of the source images" ELSE ""

Verdict(st, ev) ==
  IF ev.op = "build"
  THEN IF Has2(ev, "exc") THEN "building the patch raises " \o ev.exc ELSE
       IF ev.used # Taken(st, ev) THEN "exposures are not packed in band order" ELSE
       IF ev.bandlist # Present(st, ev) THEN "bands are not in the requested order" ELSE ""
  \* what a shallow exposure adds next to a deep one is what it gives alone
  ELSE IF ev.op = "fine" THEN
       IF Has2(ev, "exc") THEN "evaluation raises " \o ev.exc ELSE
       IF ~Near(ev.together, ev.apart, 64) THEN "the likelihood of a shallow exposure is lost next to a deep one" ELSE ""
  ELSE IF ev.op = "prepare" THEN PrepVerdict(st, ev)
  ELSE IF ~st.ready THEN "trace: not prepared"
  ELSE IF ev.op = "eval" THEN EvalVerdict(st, ev)
  ELSE IF ev.op = "design" THEN DesignVerdict(st, ev)
  ELSE IF ev.op = "fit" THEN FitVerdict(st, ev)
  ELSE IF ev.op = "render" THEN RenderVerdict(st, ev)
  ELSE "trace: unknown event"
=============================================================================
