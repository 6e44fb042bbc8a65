----------------------------- MODULE MCSummary -----------------------------
(***************************************************************************)
(* C16: laws of the derived catalogues, for every small chain: percentiles  *)
(* lie between the extremes, rise with the percentage, reach the order      *)
(* statistics exactly, and do not depend on the order of the samples; a     *)
(* group of one source is that source; groups add.                          *)
(***************************************************************************)
EXTENDS Summary, Json
CONSTANTS Vals, N
VARIABLES a, b, p
Init == a \in [1..N -> Vals] /\ b \in [1..N -> Vals] /\ p \in {0, 5, 16, 50, 84, 100}
Next == UNCHANGED <<a, b, p>>
Lo(v) == Sorted(v)[1]
Hi(v) == Sorted(v)[Len(v)]
Range1 == Percentile100(a, p) >= 100 * Lo(a) /\ Percentile100(a, p) <= 100 * Hi(a)
Ends == Percentile100(a, 0) = 100 * Lo(a) /\ Percentile100(a, 100) = 100 * Hi(a)
Rises == \A q \in 0..100 : q >= p => Percentile100(a, q) >= Percentile100(a, p)
Order == Percentile100(Reverse(a), p) = Percentile100(a, p)
Median == N = 3 => Percentile100(a, 50) = 100 * Sorted(a)[2]
cat == <<[id |-> 1, k |-> 1, s |-> <<a, b>>], [id |-> 2, k |-> 1, s |-> <<b, a>>]>>
Groups == /\ GroupChain(cat, <<1>>, 1, 1) = a /\ GroupChain(cat, <<2>>, 2, 1) = a
          /\ GroupChain(cat, <<1, 2>>, 1, 1) = [k \in 1..N |-> a[k] + b[k]]
          /\ GroupChain(cat, <<1, 2>>, 2, 1) = GroupChain(cat, <<2, 1>>, 2, 1)
=============================================================================
