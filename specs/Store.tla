------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* C12: the pixel store as a map from exposure keys to the last version    *)
(* added.  cfg: [nx, ny, s] image size and super-pixel size.               *)
(* "add" carries the raw image: px[k] = <<x, y, flux, weight, bkg, mask,   *)
(*   ok>> (integer tokens; ok = 0: a non-finite or negative-weight pixel), *)
(*   bits (0 = none), k10 (calibration 10^k10, 0 when not applied), size   *)
(*   right or wrong.  "read" carries everything the store now returns.     *)
(***************************************************************************)
EXTENDS Geo, TLC, Bitwise
Has2(r, f) == f \in DOMAIN r
InitState(c) == [n |-> 0, adds |-> [x \in {} |-> 0]]     \* adds: key -> index of the event that defines it
Tens == <<1, 10, 100>>
Masked(ev, p) == p[7] = 0 \/ p[4] = 0 \/ IF ev.bits = 0 THEN p[6] # 0 ELSE (p[6] & ev.bits) # 0
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Apply(st, ev, i) ==
  IF ev.op = "add" /\ ~Has2(ev, "exc") THEN [st EXCEPT !.adds = Put(@, ev.key, i), !.n = @ + 1] ELSE [st EXCEPT !.n = @ + 1]
Near(a, b) == Abs(a - b) <= 2 + Abs(b) \div 500000
\* flux reported in 1/10, weights in 1e-6 of a weight token/1000
FluxOK(a, p, got) == LET v == p[3] - p[5] IN
   IF a.k10 >= 0 THEN Near(got, 10 * v * Tens[a.k10 + 1]) ELSE Near(got, v)
WeightOK(a, p, got) == IF a.k10 >= 0 THEN Near(got, (1000 \div Tens[a.k10 + 1]) * p[4]) ELSE Near(got, 10000 * p[4])
\* pixel list of one stored exposure: rec.d[n], rec.w[n] for the n-th entry (super-pixel major), coordinates from the read event
ExposureVerdict(c, a, r, rec) ==
  LET at == [x \in 0..(c.nx - 1) |-> [y \in 0..(c.ny - 1) |-> a.px[x * c.ny + y + 1]]]
      N == c.nx * c.ny
  IN IF Len(rec.d) # N \/ Len(rec.w) # N THEN "a stored exposure has another size" ELSE
     IF \E n \in 1..N : LET p == at[r.x[n]][r.y[n]] IN Masked(a, p) /\ rec.w[n] # 0 THEN "a masked pixel has weight" ELSE
     IF \E n \in 1..N : LET p == at[r.x[n]][r.y[n]] IN ~Masked(a, p) /\ ~FluxOK(a, p, rec.d[n]) THEN "a stored flux is not that of its pixel" ELSE
     IF \E n \in 1..N : LET p == at[r.x[n]][r.y[n]] IN ~Masked(a, p) /\ ~WeightOK(a, p, rec.w[n]) THEN "a stored weight is not that of its pixel" ELSE
     IF \E n \in 1..N : rec.d[n] = 1999999999 THEN "a stored value is not finite" ELSE
     IF ~Near(rec.conv, IF a.k10 >= 0 THEN 10 * Tens[a.k10 + 1] ELSE 1) THEN "the calibration recorded is not the one applied" ELSE ""
Verdict(c, evs, st, ev) ==
  CASE ev.op = "add" ->
         IF Has2(ev, "exc") THEN (IF ev.right THEN "adding an exposure failed: " \o ev.exc ELSE "")
         ELSE IF ~ev.right THEN "an image of the wrong size is accepted" ELSE
         IF ~ev.same THEN "the caller's images were changed" ELSE ""
    [] ev.op = "open" -> IF Has2(ev, "exc") THEN "opening the store failed: " \o ev.exc ELSE
         IF ev.nx # c.nx \/ ev.ny # c.ny \/ ev.s # c.s THEN "the reopened store has another geometry" ELSE ""
    [] ev.op = "read" ->
         IF Has2(ev, "exc") THEN "reading the store failed: " \o ev.exc ELSE
         LET N == c.nx * c.ny
             s2 == c.s * c.s
             nsy == c.ny \div c.s
             I(n) == ((n - 1) \div s2) \div nsy
             J(n) == ((n - 1) \div s2) % nsy
             keys == {ev.recs[k].key : k \in 1..Len(ev.recs)}
         IN
         IF Len(ev.x) # N \/ Len(ev.y) # N THEN "the coordinate maps have another size" ELSE
         IF Cardinality({<<ev.x[n], ev.y[n]>> : n \in 1..N}) # N THEN "the coordinate maps are not one-to-one" ELSE
         IF \E n \in 1..N : ev.x[n] \div c.s # I(n) \/ ev.y[n] \div c.s # J(n) THEN "a pixel lies in another super-pixel" ELSE
         IF Len(ev.corners) # N \div s2 THEN "one set of corners per super-pixel" ELSE
         IF \E m \in 1..(N \div s2) : LET X == ((m - 1) \div nsy) * c.s  Y == ((m - 1) % nsy) * c.s IN
              {ev.corners[m][k] : k \in 1..4} # {<<a, b>> : a \in {X, X + c.s - 1}, b \in {Y, Y + c.s - 1}} THEN "super-pixel corners" ELSE
         IF keys # DOMAIN st.adds THEN "the stored exposures are not those added" ELSE
         LET bad == {k \in 1..Len(ev.recs) : ExposureVerdict(c, evs[st.adds[ev.recs[k].key]], ev, ev.recs[k]) # ""} IN
         IF bad # {} THEN LET k == CHOOSE k \in bad : TRUE IN ExposureVerdict(c, evs[st.adds[ev.recs[k].key]], ev, ev.recs[k]) ELSE ""
    [] OTHER -> "unknown event"
=============================================================================
