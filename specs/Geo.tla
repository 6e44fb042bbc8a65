-------------------------------- MODULE Geo --------------------------------
(* Integer geometry shared by the scene and region specifications.        *)
EXTENDS Integers, Sequences, FiniteSets
Abs(a) == IF a < 0 THEN -a ELSE a
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Bis(_, _, _)
Bis(lo, hi, n) == IF hi - lo <= 1 THEN lo
                  ELSE LET m == (lo + hi) \div 2
                       IN IF m * m <= n THEN Bis(m, hi, n) ELSE Bis(lo, m, n)
ISqrt(n) == Bis(0, 46341, n)                \* floor(sqrt(n)), n < 2^31
Hypot(dx, dy) == ISqrt(dx * dx + dy * dy)
Range(q) == {q[k] : k \in 1..Len(q)}
NoDup(q) == \A a, b \in 1..Len(q) : a # b => q[a] # q[b]
RECURSIVE SumSeq(_, _)
SumSeq(q, k) == IF k = 0 THEN 0 ELSE q[k] + SumSeq(q, k - 1)
Sum(q) == SumSeq(q, Len(q))
RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumSet(f, S \ {x})
RECURSIVE SortBy(_, _)
\* the elements of S in increasing order of the integer key function f
SortBy(S, f) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : f[x] <= f[y]
                     IN <<m>> \o SortBy(S \ {m}, f)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
=============================================================================
