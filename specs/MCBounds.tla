------------------------------ MODULE MCBounds ------------------------------
(* Generate bounds for every small flux, or start from given ones; adjust   *)
(* them in every way; the fluxes end up inside, bounds are only widened.    *)
EXTENDS Bounds, Json
CONSTANTS MaxN, Roots, Us
VARIABLES B, B0, h
vars == <<B, B0, h>>
V(n) == n - 3
Boxes == {[lo |-> l, hi |-> u, f |-> f] : l \in {V(0), V(3)}, u \in {V(7), V(12)}, f \in {V(0), V(2), V(3), V(4), V(5), V(7), V(13)}}
Gen == {[lo |-> DefLo([s |-> s, sg |-> g], u), hi |-> DefHi([s |-> s, sg |-> g], u), f |-> Flux([s |-> s, sg |-> g])] : s \in Roots, g \in {0 - 1, 1}, u \in Us}
Init == /\ h = <<>>
        /\ \/ \E n \in 1..MaxN : B \in [1..1 -> [1..n -> Boxes]]
           \/ B \in [1..1 -> [1..1 -> Gen]]
        /\ B0 = B
Adjust == /\ Len(h) < 2
          /\ \E hm \in BOOLEAN, mn \in {V(0) - 2, V(5)}, fc \in {0, 1, 3}, mv \in BOOLEAN :
                LET a == [hasmin |-> hm, min |-> mn, fac |-> fc, move |-> mv] IN
                /\ (hm \/ mn = V(5))
                /\ B' = AdjustAll(B, a) /\ h' = Append(h, a) /\ B0' = B0
Next == Adjust
GenInside == (h = <<>> /\ B[1] \in [1..1 -> Gen]) => AllInside(B)
Widened == \A i \in Idx(B[1]) : B[1][i].lo <= B0[1][i].lo /\ B[1][i].hi >= B0[1][i].hi /\ B[1][i].lo < B[1][i].hi
Moved == (h # <<>> /\ h[Len(h)].move) => AllInside(B)
\* the fraction of the sampling map is strictly between the bounds and strictly increasing
ASSUME \A k \in 1..9, m \in 1..9 : 0 < Ratio(k, k + m) /\ Ratio(k, k + m) < One /\ Ratio(k, k + m) < Ratio(k + 1, k + 1 + m)
Emit == PrintT("EDGE " \o ToJson([inp |-> B0, ops |-> h']))
=============================================================================
