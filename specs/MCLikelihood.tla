---------------------------- MODULE MCLikelihood ----------------------------
(***************************************************************************)
(* The laws of Likelihood.tla imply what C09 promises: over all small       *)
(* worlds of two exposures in one or two bands with two sources, the        *)
(* chi-square splits into bands, does not depend on the order of sources    *)
(* or exposures nor on the data of weightless pixels, and its slope in a    *)
(* flux is the difference quotient (it is quadratic).  Also the arithmetic: *)
(* FMul against exact products.                                             *)
(***************************************************************************)
EXTENDS Likelihood
CONSTANTS Vals, Imgs
VARIABLE w
q(n) == n * (One \div 8)
v(n) == q(n - 1)    \* configuration files cannot hold negative numbers
Exp(b, d, ww) == [band |-> b, d |-> d, w2 |-> ww, skip |-> <<>>]
Full(b, d, z, i, f) ==
  [exps |-> <<Exp(1, <<v(d[1]), v(d[2])>>, <<q(4 * z), q(8)>>), Exp(b, <<v(d[3])>>, <<q(2)>>)>>,
   atoms |-> << [im |-> << <<q(i[1]), q(i[2])>>, <<q(i[3])>> >>], [im |-> << <<q(i[3]), q(i[1])>>, <<q(i[2])>> >>] >>,
   src |-> << [a |-> 1, f |-> <<v(f[1]), v(f[2])>>], [a |-> 2, f |-> <<v(f[3]), v(f[1])>>] >>]
Zero3 == <<1, 1, 1>>
\* the data first, then the images and fluxes: the second step is what the workers share
Init == \E b \in {1, 2}, d1, d2, d3 \in Vals, z \in {0, 1} : w = [c |-> 0, b |-> b, d |-> <<d1, d2, d3>>, z |-> z] @@ Full(b, <<d1, d2, d3>>, z, <<0, 0, 0>>, Zero3)
Next == w.c = 0 /\ \E i1, i2, i3 \in Imgs, f1, f2, f3 \in Vals :
          w' = [c |-> 1, b |-> w.b, d |-> w.d, z |-> w.z] @@ Full(w.b, w.d, w.z, <<i1, i2, i3>>, <<f1, f2, f3>>)
St(order) == [cfg |-> w, used |-> order, bands |-> <<1, 2>>, data |-> [k \in 1..2 |-> w.exps[order[k]].d], ready |-> TRUE, nact |-> 2]
S12 == St(<<1, 2>>)
S21 == St(<<2, 1>>)
C(s, src) == Chi2(s, Terms(s, src))
Swapd == <<w.src[2], w.src[1]>>
Order == C(S12, w.src) = C(S12, Swapd) /\ C(S12, w.src) = C(S21, w.src)
Bands == LET T == Terms(S12, w.src) IN Chi2(S12, T) = BandChi2(S12, T, 1) + BandChi2(S12, T, 2)
NoWeight == w.exps[1].w2[1] = 0 => C([S12 EXCEPT !.data[1][1] = @ + One], w.src) = C(S12, w.src)
Bump(b, h) == [w.src EXCEPT ![1].f[b] = @ + h]
Slope == \A b \in {1, 2} :
   Near(C(S12, Bump(b, -q(1))) - C(S12, Bump(b, q(1))), FMul(4 * q(1), FluxSlope(S12, Terms(S12, w.src), w.src[1], b)), 4)
Own == \A b \in {1, 2} : LET o == 3 - b IN BandChi2(S12, Terms(S12, Bump(b, q(1))), o) = BandChi2(S12, Terms(S12, w.src), o)
ASSUME \A a \in {-181, -7, 0, 3, 160}, b \in {-97, 0, 5, 181} : LET A == a * Limb  B == b * Limb IN FMul(A, B) = a * b /\ Near(FMul(A + 1, B + 3), a * b, (FAbs(a) * 3 + FAbs(b)) \div Limb + 2)
=============================================================================
