------------------------------- MODULE Ingest -------------------------------
(***************************************************************************)
(* C17: rectified catalogues and position angles.                          *)
(* Angles: 36000 units per half turn.  Catalogue angles: micro-radians.    *)
(***************************************************************************)
EXTENDS Geo, TLC
Has2(r, f) == f \in DOMAIN r
InitState(c) == [n |-> 0]
Apply(st, ev) == [st EXCEPT !.n = @ + 1]
Half == 36000
Quarter == 18000
\* the orientation asked for, modulo half a turn
Orient(n, rot, rev) == LET a == (n + IF rot THEN Quarter ELSE 0) % Half IN IF rev THEN (-a) % Half ELSE a
AngleOK(n, rot, rev, m) == LET d == (m - Orient(n, rot, rev)) % Half IN (d <= 1 \/ d >= Half - 1) /\ m >= -Quarter - 1 /\ m <= Quarter + 1
Clip(v, lo, hi) == Max(lo, Min(hi, v))
PI == 3141593
PI2 == 1570796
NearMod(d) == LET r == d % PI IN r <= 8 \/ r >= PI - 8
RowVerdict(ev, k) ==
  LET a == ev.inp[k]  b == ev.out[k] IN
  IF b.index # k - 1 THEN "source indices are not sequential" ELSE
  IF b.id # a.id THEN "identity of a row" ELSE
  IF b.ra # a.ra \/ b.dec # a.dec THEN "position of a row" ELSE
  IF b.flux # a.flux THEN "flux of a row" ELSE
  IF b.q # Clip(a.q, ev.qr[1], ev.qr[2]) \/ b.sersic # Clip(a.sersic, ev.sr[1], ev.sr[2]) \/ b.rhalf # Clip(a.rhalf, ev.rr[1], ev.rr[2])
  THEN "shape not clipped to its range only" ELSE
  LET pc == Clip(a.pa, ev.pr[1], ev.pr[2])
      w == (pc + IF ev.rot THEN PI2 ELSE 0) * (IF ev.rev THEN -1 ELSE 1)
  IN IF ~NearMod(b.pa - w) THEN "position angle of a row" ELSE
     IF ev.rot /\ Abs(b.pa) > PI2 + 8 THEN "rotated position angle outside half a turn" ELSE
     IF ~ev.rot /\ Abs(b.pa - w) > 8 THEN "position angle changed" ELSE ""
Verdict(st, ev) ==
  CASE ev.op = "pa" ->
         IF Has2(ev, "exc") THEN "angle conversion failed: " \o ev.exc ELSE
         IF Len(ev.out) # Len(ev.inp) THEN "one angle per input" ELSE
         IF \E k \in 1..Len(ev.inp) : ~AngleOK(ev.inp[k], ev.rot, ev.rev, ev.out[k]) THEN "not the orientation asked for" ELSE
         IF ~ev.same THEN "the input angles were modified" ELSE ""
    [] ev.op = "rectify" ->
         IF Has2(ev, "exc") THEN (IF ev.valid THEN "a valid catalogue is rejected: " \o ev.exc ELSE "") ELSE
         IF ~ev.valid THEN "an invalid catalogue is accepted" ELSE
         IF Len(ev.out) # Len(ev.inp) THEN "rows lost or added" ELSE
         IF ev.bands # ev.wantbands THEN "bands of the catalogue" ELSE
         IF ~ev.same THEN "the input catalogue was modified" ELSE
         LET bad == {k \in 1..Len(ev.inp) : RowVerdict(ev, k) # ""} IN
         IF bad # {} THEN RowVerdict(ev, CHOOSE k \in bad : TRUE) ELSE ""
    [] OTHER -> "unknown event"
=============================================================================
