------------------------------ MODULE MCImage ------------------------------
(* The image specification itself: arithmetic, conservation of flux and the *)
(* behaviour under shifts, turns and reflections of the sky mapping, for a  *)
(* grid of sources, mappings and point-spread functions.  Each choice is    *)
(* also rendered by the two implementations.                                *)
EXTENDS Image, Json
CONSTANTS Depth
VARIABLES pick
Turn == << <<<<1, 0>>, <<0, 1>>>>, <<<<0, -1>>, <<1, 0>>>>, <<<<-1, 0>>, <<0, -1>>>>, <<<<0, 1>>, <<-1, 0>>>>,
           <<<<-1, 0>>, <<0, 1>>>>, <<<<0, 1>>, <<1, 0>>>>, <<<<1, 0>>, <<0, -1>>>>, <<<<0, -1>>, <<-1, 0>>>> >>
IMat(a, b) == <<<<a[1][1]*b[1][1] + a[1][2]*b[2][1], a[1][1]*b[1][2] + a[1][2]*b[2][2]>>, <<a[2][1]*b[1][1] + a[2][2]*b[2][1], a[2][1]*b[1][2] + a[2][2]*b[2][2]>>>>
IMatV(a, v) == <<a[1][1]*v[1] + a[1][2]*v[2], a[2][1]*v[1] + a[2][2]*v[2]>>
Scales == <<5 * One, 9 * One>>
Skew == <<0, One \div 2>>
Qs == <<One, (6 * One) \div 10>>
Pas == <<<<One, 0>>, <<FDiv(One, FSqrt(2 * One)), FDiv(One, FSqrt(2 * One))>>, <<(6 * One) \div 10, 0 - ((8 * One) \div 10)>>>>
Offs == <<<<0, 0>>, <<One \div 4, 0 - One \div 3>>>>
Rad == <<0, One \div 10, One \div 5>>
Amps == <<One \div 4, One \div 4, One \div 2>>
PsfA == <<[a |-> One, x |-> 0, y |-> 0, cxx |-> One, cyy |-> One, cxy |-> 0]>>
PsfB == <<[a |-> (7 * One) \div 10, x |-> One \div 8, y |-> 0 - One \div 8, cxx |-> 2 * One, cyy |-> One, cxy |-> One \div 2],
          [a |-> One - (7 * One) \div 10, x |-> 0, y |-> One \div 4, cxx |-> One, cyy |-> 3 * One, cxy |-> 0 - One \div 2]>>
Psfs == <<PsfA, PsfB>>
Base(p) == <<<<Scales[p.scale], FMul(Skew[p.skew], Scales[p.scale])>>, <<0, Scales[p.scale]>>>>
SMat(t, D) == <<<<t[1][1]*D[1][1] + t[1][2]*D[2][1], t[1][1]*D[1][2] + t[1][2]*D[2][2]>>, <<t[2][1]*D[1][1] + t[2][2]*D[2][1], t[2][1]*D[1][2] + t[2][2]*D[2][2]>>>>
DOf(p, turn) == SMat(Turn[turn], Base(p))
Src(p) == [flux |-> <<One>>, q |-> Qs[p.q], c |-> Pas[p.pa][1], s |-> Pas[p.pa][2], amp |-> Amps, rad |-> Rad]
\* PSF of a turned image
TPsf(p, t) == LET B == Psfs[p.psf] IN [i \in Idx(B) |-> LET m == IMatV(t, <<B[i].x, B[i].y>>)
       C == IMat(IMat(t, <<<<B[i].cxx, B[i].cxy>>, <<B[i].cxy, B[i].cyy>>>>), Tr(t)) IN [B[i] EXCEPT !.x = m[1], !.y = m[2], !.cxx = C[1][1], !.cyy = C[2][2], !.cxy = C[1][2]]]
Each(B) == FoldLeft(LAMBDA a, m : a \o [i \in Idx(B) |-> [m |-> m, a |-> B[i].a, x |-> B[i].x, y |-> B[i].y, cxx |-> B[i].cxx, cyy |-> B[i].cyy, cxy |-> B[i].cxy]], <<>>, <<1, 2, 3>>)
Grid(n) == [i \in 1..((2*n+1)*(2*n+1)) |-> <<((i - 1) % (2*n+1)) - n, ((i - 1) \div (2*n+1)) - n>>]
Exp(D, cen, psf, px) == [band |-> 1, G |-> One, arcsec |-> FALSE, at |-> <<[D |-> D, cen |-> cen, psf |-> psf]>>, px |-> px]
Sample == <<<<0, 0>>, <<1, 0>>, <<2, -1>>, <<-1, 3>>, <<-2, -2>>, <<4, 1>>, <<0, -4>>>>
None == [none |-> TRUE]
Init == pick = None
Next == pick = None /\ \E t \in 1..8, sc \in 1..2, k \in 1..2, q \in 1..2, pa \in 1..3, o \in 1..2, f \in 1..2 :
           pick' = [turn |-> t, scale |-> sc, skew |-> k, q |-> q, pa |-> pa, off |-> o, psf |-> f] /\ (Depth > 1 \/ o = 2) /\ (Depth > 1 \/ t \in {1, 2, 5, 8})
IsPick == pick # None
\* arithmetic of the specification
Grid1 == {One \div 7, One, (5 * One) \div 3, 3 * One, 11 * One}
Arith == pick = None => \A a \in Grid1, b \in Grid1 :
   /\ FAbs(FMul(FDiv(a, b), b) - a) <= 4 + b \div One
   /\ FAbs(FMul(FSqrt(a), FSqrt(a)) - a) <= 16
   /\ a + b < 15 * One => FAbs(FMul(FExp(a), FExp(b)) - FExp(a + b)) <= 6
   /\ FExp(0) = One
\* ten pixels around contain everything for the small scale
Conserved == IsPick /\ pick.scale = 1 /\ pick.turn = 1 => FAbs(FSum(Render(<<Src(pick)>>, Exp(DOf(pick, 1), Offs[pick.off], Each(Psfs[pick.psf]), Grid(10)))) - One) <= 3000
\* a turned mapping turns the image
Turned == IsPick => LET t == Turn[pick.turn]
      im == Render(<<Src(pick)>>, Exp(DOf(pick, 1), Offs[pick.off], Each(Psfs[pick.psf]), Sample))
      tm == Render(<<Src(pick)>>, Exp(DOf(pick, pick.turn), IMatV(t, Offs[pick.off]), Each(TPsf(pick, t)), [i \in Idx(Sample) |-> IMatV(t, Sample[i])]))
   IN NearImage(im, tm, 40)
Shifted == IsPick => LET c == Offs[pick.off]
      im == Render(<<Src(pick)>>, Exp(DOf(pick, pick.turn), c, Each(Psfs[pick.psf]), Sample))
      sm == Render(<<Src(pick)>>, Exp(DOf(pick, pick.turn), <<c[1] + 3 * One, c[2] - 2 * One>>, Each(Psfs[pick.psf]), [i \in Idx(Sample) |-> <<Sample[i][1] + 3, Sample[i][2] - 2>>]))
   IN im = sm
\* a position angle and its opposite are the same source; q and 1/q at right angles too
SameSource == IsPick => LET s == Src(pick)  X == Exp(DOf(pick, pick.turn), Offs[pick.off], Each(Psfs[pick.psf]), Sample)
      im == Render(<<s>>, X) IN
   /\ NearImage(im, Render(<<[s EXCEPT !.c = 0 - s.c, !.s = 0 - s.s]>>, X), 40)
   /\ NearImage(im, Render(<<[s EXCEPT !.q = FDiv(One, s.q), !.c = 0 - s.s, !.s = s.c]>>, X), 60)
Emit == PrintT("EDGE " \o ToJson(pick'))
=============================================================================
