----------------------------- MODULE FixedPoint -----------------------------
(***************************************************************************)
(* Real arithmetic for recorded images and likelihoods, in 32 bit integers. *)
(* A real x with |x| < 16 is the integer round(x * 2^22) ("Q22").  Products *)
(* are formed from 11 bit limbs, so no intermediate value overflows.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC
One == 4194304
Limb == 2048
FAbs(x) == IF x < 0 THEN -x ELSE x
FMul(a, b) ==
  LET ah == a \div Limb  al == a % Limb  bh == b \div Limb  bl == b % Limb
  IN ah * bh + (ah * bl + al * bh + (al * bl) \div Limb) \div Limb
Ix(n) == TLCEval([i \in 1..n |-> i])
FSum(q) == FoldLeft(LAMBDA acc, x : acc + x, 0, q)
FDot(a, b) == FoldLeft(LAMBDA acc, i : acc + FMul(a[i], b[i]), 0, Ix(Len(a)))
FAbsSum(q) == FoldLeft(LAMBDA acc, x : acc + FAbs(x), 0, q)
FMax(q) == FoldLeft(LAMBDA acc, x : IF FAbs(x) > acc THEN FAbs(x) ELSE acc, 0, q)
FHad(a, b) == TLCEval([i \in 1..Len(a) |-> FMul(a[i], b[i])])
FAdd(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] + b[i]])
FSub(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] - b[i]])
FScale(f, a) == TLCEval([i \in 1..Len(a) |-> FMul(f, a[i])])
Near(a, b, tol) == FAbs(a - b) <= tol
AllNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
=============================================================================
