------------------------------- MODULE Pixels -------------------------------
(***************************************************************************)
(* C07, C15: which exposures and pixels a patch takes, and how it packs    *)
(* them.  cfg.exps: the exposures on disk, in file order, each             *)
(*   [band, blk (padding block, 0 = none), px, units]                      *)
(*   px[k] = <<x, y, flux, weight, unit>>  weight 0 = masked/non-finite    *)
(*   units[n] = four corners <<u, v>> on the sky (1 unit = 0.15 mas)       *)
(* An event "build" is one call of build_patch on the same patch object    *)
(* with its region, requested bands, background and cap settings, and all  *)
(* observable results.  Nothing of an earlier build may show in a later    *)
(* one, hence the verdict depends on cfg and the event only.               *)
(***************************************************************************)
EXTENDS Geo, TLC
Has2(r, f) == f \in DOMAIN r
InitState(c) == [cfg |-> c, builds |-> 0]
Apply(st, ev) == [st EXCEPT !.builds = @ + 1]
Tol == 2
WUnit == 64               \* weights are reported in 1/64 of a token
CapScale == 64000
\* -1 outside, 1 inside, 0 too close to the boundary to say
Inside(R, p) ==
  IF R.kind = "all" THEN 1 ELSE
  IF R.kind = "circle"
  THEN LET du == p[1] - R.u  dv == p[2] - R.v  d2 == du * du + dv * dv IN
       IF Abs(du) > 30000 \/ Abs(dv) > 30000 THEN -1 ELSE
       IF R.r > Tol /\ d2 < (R.r - Tol) * (R.r - Tol) THEN 1 ELSE IF d2 > (R.r + Tol) * (R.r + Tol) THEN -1 ELSE 0
  ELSE IF p[1] > R.u0 + Tol /\ p[1] < R.u1 - Tol /\ p[2] > R.v0 + Tol /\ p[2] < R.v1 - Tol THEN 1
  ELSE IF p[1] < R.u0 - Tol \/ p[1] > R.u1 + Tol \/ p[2] < R.v0 - Tol \/ p[2] > R.v1 + Tol THEN -1 ELSE 0
UnitClass(R, q) == LET s == {Inside(R, q[k]) : k \in 1..Len(q)} IN IF 1 \in s THEN 1 ELSE IF 0 \in s THEN 0 ELSE -1
UnitClasses(R, x) == [n \in 1..Len(x.units) |-> UnitClass(R, x.units[n])]
\* 1: the exposure has a selected pixel, -1: none, 0: cannot say
ExpClass(uc) == LET s == Range(uc) IN IF 1 \in s THEN 1 ELSE IF 0 \in s THEN 0 ELSE -1
RECURSIVE CumTo(_, _)
CumTo(q, k) == IF k <= 0 THEN 0 ELSE q[k] + CumTo(q, k - 1)
PosIn(q, b) == IF \E k \in 1..Len(q) : q[k] = b THEN CHOOSE k \in 1..Len(q) : q[k] = b ELSE 0

\* weight and flux of one packed pixel against the pixel p of exposure x
PixelOK(ev, off, p, f, w) ==
  IF p[4] = 0 THEN w = 0
  ELSE /\ f = p[3] - off
       /\ IF ev.cap > 0 /\ f > 0 /\ f * p[4] > 1000 * ev.cap
          THEN Abs(f * w - CapScale * ev.cap) <= f
          ELSE w = WUnit * p[4] \/ (ev.cap > 0 /\ f > 0 /\ f * p[4] = 1000 * ev.cap /\ Abs(w - WUnit * p[4]) <= 1)

\* slice of exposure number k (packed), exposure x of cfg
SliceVerdict(st, ev, k, x, uc) ==
  LET a == ev.exposure_start[k]
      n == ev.exposure_N[k]
      real == {i \in (a + 1)..(a + n) : ev.x[i] >= 0 /\ ev.y[i] >= 0}
      pad == ((a + 1)..(a + n)) \ real
      off == IF ev.tweak THEN x.off ELSE 0
      at == [i \in real |-> {j \in 1..Len(x.px) : x.px[j][1] = ev.x[i] /\ x.px[j][2] = ev.y[i]}]
      got == UNION {at[i] : i \in real}
  IN IF \E i \in real : at[i] = {} THEN "a packed pixel is not a pixel of its exposure" ELSE
     IF Cardinality(got) # Cardinality(real) THEN "a pixel is packed twice" ELSE
     IF \E j \in got : uc[x.px[j][5]] = -1 THEN "a pixel outside the region is packed" ELSE
     IF \E j \in 1..Len(x.px) : uc[x.px[j][5]] = 1 /\ j \notin got THEN "a pixel inside the region is missing" ELSE
     IF \E i \in pad : ev.x[i] >= 0 \/ ev.y[i] >= 0 THEN "padding is not flagged by both coordinates" ELSE
     IF \E i \in pad : ev.w[i] # 0 THEN "padding has weight" ELSE
     IF x.blk = 0 /\ pad # {} THEN "padding added to an unpadded source" ELSE
     IF x.blk > 0 /\ (n % x.blk # 0 \/ Cardinality(pad) >= x.blk) THEN "padding does not fill exactly to the block size" ELSE
     IF \E i \in real : LET j == CHOOSE j \in at[i] : TRUE IN x.px[j][4] = 0 /\ ev.w[i] # 0 THEN "a masked pixel has weight" ELSE
     IF \E i \in real : LET j == CHOOSE j \in at[i] : TRUE IN ~PixelOK(ev, off, x.px[j], ev.d[i], ev.w[i])
     THEN "a pixel has another flux or weight" ELSE ""

Verdict(st, ev) ==
  LET c == st.cfg
      E == 1..Len(c.exps)
      uc == [e \in E |-> UnitClasses(ev.region, c.exps[e])]
      req == {e \in E : \E k \in 1..Len(ev.bands) : ev.bands[k] = c.exps[e].band}
      must == {e \in req : ExpClass(uc[e]) = 1}
      may == {e \in req : ExpClass(uc[e]) # -1}
  IN
  IF Has2(ev, "exc") THEN (IF must = {} THEN "" ELSE "building the patch failed: " \o ev.exc) ELSE
  LET used == Range(ev.used)
      NE == Len(ev.used)
      NB == Len(ev.bandlist)
      N == Len(ev.d)
      key == [k \in 1..NE |-> PosIn(ev.bands, c.exps[ev.used[k]].band)]
  IN
  IF ~NoDup(ev.used) THEN "an exposure is used twice" ELSE
  IF used \ req # {} THEN "an exposure of another band is used" ELSE
  IF must \ used # {} THEN "an exposure with selected pixels is missing" ELSE
  IF used \ may # {} THEN "an exposure without a selected pixel is used" ELSE
  IF ev.eband # [k \in 1..NE |-> c.exps[ev.used[k]].band] THEN "exposure labelled with another band" ELSE
  IF \E k \in 1..(NE - 1) : key[k] > key[k + 1] THEN "exposures not grouped in requested band order" ELSE
  IF ev.bandlist # SelectSeq(ev.bands, LAMBDA b : \E e \in used : c.exps[e].band = b) THEN "band list is not the requested bands that have exposures" ELSE
  IF Len(ev.exposure_N) # NE \/ Len(ev.exposure_start) # NE \/ Len(ev.band_N) # NB \/ Len(ev.band_start) # NB \/ Len(ev.band_N_pix) # NB
  THEN "index arrays have other lengths" ELSE
  IF Len(ev.w) # N \/ Len(ev.x) # N \/ Len(ev.y) # N THEN "pixel arrays differ in length" ELSE
  IF \E k \in 1..NE : ev.exposure_start[k] # CumTo(ev.exposure_N, k - 1) \/ ev.exposure_N[k] <= 0 THEN "exposures are not contiguous" ELSE
  IF CumTo(ev.exposure_N, NE) # N THEN "exposures do not cover the pixels" ELSE
  IF \E b \in 1..NB : ev.band_start[b] # CumTo(ev.band_N, b - 1) \/ ev.band_N[b] # Cardinality({k \in 1..NE : ev.eband[k] = ev.bandlist[b]})
  THEN "band index arrays do not partition the exposures" ELSE
  IF \E b \in 1..NB : ev.band_N_pix[b] # SumSet([k \in 1..NE |-> ev.exposure_N[k]], {k \in 1..NE : ev.eband[k] = ev.bandlist[b]})
  THEN "pixel count of a band" ELSE
  IF ev.nband # NB \/ ev.nexp # NE \/ ev.npix # N THEN "counts of bands, exposures or pixels" ELSE
  IF \E q \in 1..Len(ev.split) : Len(ev.split[q]) # NE \/ \E k \in 1..NE :
        ev.split[q][k] # SubSeq(CASE q = 1 -> ev.d [] q = 2 -> ev.w [] q = 3 -> ev.x [] OTHER -> ev.y,
                                ev.exposure_start[k] + 1, ev.exposure_start[k] + ev.exposure_N[k])
  THEN "splitting by exposure mixes pixels" ELSE
  IF \E q \in 1..Len(ev.bsplit) : Len(ev.bsplit[q]) # NB \/ \E b \in 1..NB :
        ev.bsplit[q][b] # SubSeq(CASE q = 1 -> ev.d [] q = 2 -> ev.w [] q = 3 -> ev.x [] OTHER -> ev.y,
                                CumTo(ev.band_N_pix, b - 1) + 1, CumTo(ev.band_N_pix, b))
  THEN "splitting by band mixes pixels" ELSE
  LET bad == {k \in 1..NE : SliceVerdict(st, ev, k, c.exps[ev.used[k]], uc[ev.used[k]]) # ""} IN
  IF bad # {} THEN LET k == CHOOSE k \in bad : TRUE IN SliceVerdict(st, ev, k, c.exps[ev.used[k]], uc[ev.used[k]]) ELSE ""
=============================================================================
