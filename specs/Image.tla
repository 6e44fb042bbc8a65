------------------------------- MODULE Image -------------------------------
(***************************************************************************)
(* C19: the image of sources, computed from their on-sky parameters.        *)
(* All reals are Q22 (FixedPoint).  A source has flux, axis ratio root q,   *)
(* c, s = cosine and sine of the position angle, and amplitudes amp[m] of   *)
(* its mixture components with radii rad[m] (arcsec).  An exposure gives it *)
(* at[k]: D (pixels per arcsec), its centre in pixels and the PSF gaussians *)
(* [m, a, x, y, cxx, cyy, cxy] that belong to component m; and for all G,   *)
(* the counts per unit of flux.                                             *)
(***************************************************************************)
EXTENDS FixedPoint, FiniteSets
Has2(r, f) == f \in DOMAIN r
Idx(q) == 1..Len(q)
Bits == TLCEval([i \in 1..22 |-> i])
\* a / b for 0 <= a, 0 < b < 256: integer part, then 22 binary digits
FDivP(a, b) == LET z == FoldLeft(LAMBDA acc, i : LET r == 2 * acc[2] IN IF r >= b THEN <<2 * acc[1] + 1, r - b>> ELSE <<2 * acc[1], r>>, <<a \div b, a % b>>, Bits)
               IN z[1] + (IF 2 * z[2] >= b THEN 1 ELSE 0)
FDiv(a, b) == IF b < 0 THEN (IF a < 0 THEN FDivP(0 - a, 0 - b) ELSE 0 - FDivP(a, 0 - b)) ELSE IF a < 0 THEN 0 - FDivP(0 - a, b) ELSE FDivP(a, b)
\* square root by Newton's iteration from above
FSqrt(a) == IF a <= 0 THEN 0 ELSE FoldLeft(LAMBDA x, i : (x + FDivP(a, x)) \div 2, IF a > One THEN (a + One) \div 2 ELSE One, TLCEval([i \in 1..14 |-> i]))
ExpInt == <<4194304, 1542998, 567637, 208822, 76821, 28261, 10397, 3825, 1407, 518, 190, 70, 26, 9, 3, 1>>   \* e^-k
ExpOct == <<4194304, 3701460, 3266527, 2882700, 2543974, 2245049, 1981249, 1748446>>                         \* e^-(k/8)
\* e^-x for x >= 0
FExp(x) == IF x >= 16 * One THEN 0 ELSE
   LET k == x \div One  f == x % One  j == f \div 524288  g == f % 524288
       g2 == FMul(g, g)  g3 == FMul(g2, g)
       t == One - g + g2 \div 2 - g3 \div 6 + FMul(g2, g2) \div 24
   IN FMul(FMul(ExpOct[j + 1], t), ExpInt[k + 1])
Mat(a, b) == <<<<FMul(a[1][1], b[1][1]) + FMul(a[1][2], b[2][1]), FMul(a[1][1], b[1][2]) + FMul(a[1][2], b[2][2])>>,
               <<FMul(a[2][1], b[1][1]) + FMul(a[2][2], b[2][1]), FMul(a[2][1], b[1][2]) + FMul(a[2][2], b[2][2])>>>>
MatV(a, v) == <<FMul(a[1][1], v[1]) + FMul(a[1][2], v[2]), FMul(a[2][1], v[1]) + FMul(a[2][2], v[2])>>
Tr(a) == <<<<a[1][1], a[2][1]>>, <<a[1][2], a[2][2]>>>>
MScale(f, a) == <<<<FMul(f, a[1][1]), FMul(f, a[1][2])>>, <<FMul(f, a[2][1]), FMul(f, a[2][2])>>>>
\* unit circle -> stretched by q, turned by the position angle, in pixels
Shape(s, D) == Mat(D, <<<<FDiv(s.c, s.q), 0 - FMul(s.s, s.q)>>, <<FDiv(s.s, s.q), FMul(s.c, s.q)>>>>)
InvTwoPi == 667544
\* one image gaussian: the component m of source s, convolved with PSF gaussian p
Gaussian(s, D, cen, p, arcsec, flux) ==
  LET U == MScale(s.rad[p.m], Shape(s, D))
      S == Mat(U, Tr(U))
      C0 == <<<<p.cxx, p.cxy>>, <<p.cxy, p.cyy>>>>
      C == IF arcsec THEN Mat(Mat(D, C0), Tr(D)) ELSE C0
      off == IF arcsec THEN MatV(D, <<p.x, p.y>>) ELSE <<p.x, p.y>>
      sxx == S[1][1] + C[1][1]  syy == S[2][2] + C[2][2]  sxy == S[1][2] + C[1][2]
      det == FMul(sxx, syy) - FMul(sxy, sxy)
  IN [x |-> cen[1] + off[1], y |-> cen[2] + off[2],
      fxx |-> FDiv(syy, det), fyy |-> FDiv(sxx, det), fxy |-> 0 - FDiv(sxy, det),
      amp |-> FMul(FMul(FMul(flux, s.amp[p.m]), p.a), FDiv(InvTwoPi, FSqrt(det)))]
\* counts of a gaussian in the pixel (x, y), with the second order term of the pixel integral
Counts(g, x, y) ==
  LET dx == x * One - g.x  dy == y * One - g.y IN
  IF FAbs(dx) > 16 * One \/ FAbs(dy) > 16 * One THEN 0 ELSE
  LET vx == FMul(g.fxx, dx) + FMul(g.fxy, dy)
      vy == FMul(g.fyy, dy) + FMul(g.fxy, dx)
      e == (FMul(dx, vx) + FMul(dy, vy)) \div 2
  IN IF e >= 15 * One THEN 0 ELSE
     FMul(FMul(g.amp, FExp(IF e < 0 THEN 0 ELSE e)), One + (FMul(vx, vx) + FMul(vy, vy) - g.fxx - g.fyy) \div 24)
Gaussians(s, x, k) == TLCEval([i \in Idx(x.at[k].psf) |-> Gaussian(s, x.at[k].D, x.at[k].cen, x.at[k].psf[i], x.arcsec, FMul(s.flux[x.band], x.G))])
\* the image of all sources in the pixels of exposure x
Render(src, x) ==
  LET G == TLCEval(FoldLeft(LAMBDA a, k : a \o Gaussians(src[k], x, k), <<>>, Ix(Len(src))))
  IN TLCEval([i \in Idx(x.px) |-> FoldLeft(LAMBDA a, j : a + Counts(G[j], x.px[i][1], x.px[i][2]), 0, Ix(Len(G)))])
\* where the astrometry puts a source: M (pixels per coordinate arcsec), d = offset from the reference in arcsec
Place(M, d, crpix) == <<crpix[1] + MatV(M, d)[1], crpix[2] + MatV(M, d)[2]>>
Tol(ev) == 120 + 60 * Len(ev.src)
NearImage(a, b, tol) == Len(a) = Len(b) /\ \A i \in Idx(a) : FAbs(a[i] - b[i]) <= tol + FAbs(b[i]) \div 4096
FirstBad(q, F(_)) == FoldLeft(LAMBDA a, i : IF a # "" THEN a ELSE F(i), "", Ix(Len(q)))
ImageVerdict(ev) ==
  FirstBad(ev.exps, LAMBDA e :
    LET x == ev.exps[e]
        bad == {k \in Idx(x.at) : Has2(x.at[k], "M") /\ LET p == Place(x.at[k].M, x.at[k].d, x.at[k].crpix) IN FAbs(p[1] - x.at[k].cen[1]) > 100 \/ FAbs(p[2] - x.at[k].cen[2]) > 100}
    IN IF bad # {} THEN "malformed trace" ELSE
       LET im == Render(ev.src, x) IN
       IF Has2(x, "kernel") /\ ~NearImage(x.kernel, im, Tol(ev)) THEN "the compiled kernel's image is not that of the sources" ELSE
       IF Has2(x, "slow") /\ ~NearImage(x.slow, im, Tol(ev)) THEN "the reference image is not that of the sources" ELSE
       IF Has2(x, "kernel") /\ Has2(x, "slow") /\ ~NearImage(x.kernel, x.slow, Tol(ev)) THEN "the two implementations' images differ" ELSE "")
\* likelihoods and gradients of both paths, normalized by the sums of the magnitudes of their terms
BothVerdict(ev) ==
  IF FAbs(ev.lnk - ev.lns) > 2000 THEN "the two implementations' likelihoods differ" ELSE
  IF Len(ev.gk) # Len(ev.gs) THEN "the gradients have different lengths" ELSE
  IF \E i \in Idx(ev.gk) : FAbs(ev.gk[i] - ev.gs[i]) > 3000 THEN "the two implementations' gradients differ" ELSE ""
\* the reference likelihood and its gradient from its own image and image gradients: d, w2 data and squared weights
SlowVerdict(ev) ==
  LET r == FoldLeft(LAMBDA a, e : a \o FSub(ev.exps[e].d, ev.exps[e].im), <<>>, Ix(Len(ev.exps)))
      w == FoldLeft(LAMBDA a, e : a \o ev.exps[e].w2, <<>>, Ix(Len(ev.exps)))
      wr == FHad(r, w)
  IN IF FAbs(ev.lnl + FDot(r, wr) \div 2) > 60 + 2 * Len(r) THEN "the reference likelihood is not that of its residuals" ELSE
     IF \E i \in Idx(ev.grad) : FAbs(ev.grad[i] - FDot(wr, ev.jac[i])) > 200 + 4 * Len(r) THEN "the reference gradient is not that of its image gradients" ELSE ""
JacVerdict(ev) == IF \E i \in Idx(ev.jac) : ~(Len(ev.jac[i]) = Len(ev.fd[i]) /\ \A n \in Idx(ev.jac[i]) : FAbs(ev.jac[i][n] - ev.fd[i][n]) <= 4000)
                  THEN "image gradients are not the derivatives of the image" ELSE ""
\* total counts on a grid that contains the source, and the mean position
MomentVerdict(ev) ==
  IF FAbs(ev.sum - ev.flux) > 6000 THEN "flux is not conserved in the image" ELSE
  IF FAbs(ev.mean[1] - ev.cen[1]) > 12000 \/ FAbs(ev.mean[2] - ev.cen[2]) > 12000 THEN "the image is not centred on the position of the source" ELSE ""
LocalVerdict(ev) ==
  IF \E a \in 1..2, b \in 1..2 : FAbs(ev.CW[a][b] - ev.wantCW[a][b]) > 8000 THEN "the local sky to pixel matrix is not that of the image" ELSE
  IF \E a \in 1..2, b \in 1..2 : FAbs(ev.D[a][b] - ev.wantD[a][b]) > 8000 THEN "the local scale matrix is not that of the image" ELSE ""
EqVerdict(ev) == IF Len(ev.a) # Len(ev.b) \/ \E i \in Idx(ev.a) : FAbs(ev.a[i] - ev.b[i]) > ev.tol THEN ev.what ELSE ""
InitState(c) == [cfg |-> c]
Apply(st, ev) == st
Verdict(st, ev) ==
  IF Has2(ev, "exc") THEN "raised " \o ev.exc ELSE
  CASE ev.op = "image" -> ImageVerdict(ev)
    [] ev.op = "both" -> BothVerdict(ev)
    [] ev.op = "slow" -> SlowVerdict(ev)
    [] ev.op = "jac" -> JacVerdict(ev)
    [] ev.op = "moment" -> MomentVerdict(ev)
    [] ev.op = "local" -> LocalVerdict(ev)
    [] ev.op = "eq" -> EqVerdict(ev)
    [] OTHER -> "malformed trace"
=============================================================================
