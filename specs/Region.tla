------------------------------- MODULE Region -------------------------------
(* C15: plane geometry behind region and footprint tests, on integers.     *)
(* Each test has three answers: 1 yes, -1 no, 0 touching (either accepted).*)
EXTENDS Geo, TLC
Has2(r, f) == f \in DOMAIN r
InitState(c) == [n |-> 0]
Apply(st, ev) == [st EXCEPT !.n = @ + 1]
Cross(o, a, b) == (a[1] - o[1]) * (b[2] - o[2]) - (a[2] - o[2]) * (b[1] - o[1])
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Nxt(P, k) == IF k = Len(P) THEN 1 ELSE k + 1
RECURSIVE Area2(_, _)
Area2(P, k) == IF k > Len(P) THEN 0 ELSE P[k][1] * P[Nxt(P, k)][2] - P[k][2] * P[Nxt(P, k)][1] + Area2(P, k + 1)
\* position of a point relative to a convex polygon: 1 strictly inside, -1 strictly outside, 0 within tol of an edge
InPoly(P, p, tol) ==
  LET o == Sign(Area2(P, 1))
      h == [k \in 1..Len(P) |-> o * Cross(P[k], P[Nxt(P, k)], p)]
      l == [k \in 1..Len(P) |-> IF tol = 0 THEN 0 ELSE tol * (1 + Hypot(P[Nxt(P, k)][1] - P[k][1], P[Nxt(P, k)][2] - P[k][2]))]
  IN IF o = 0 THEN 0 ELSE
     IF \A k \in 1..Len(P) : h[k] > l[k] THEN 1 ELSE
     IF \E k \in 1..Len(P) : h[k] < -l[k] THEN -1 ELSE 0
\* segments ab and cd: 1 cross properly, -1 disjoint, 0 touch
OnSeg(a, b, p) == Cross(a, b, p) = 0 /\ Min(a[1], b[1]) <= p[1] /\ p[1] <= Max(a[1], b[1]) /\ Min(a[2], b[2]) <= p[2] /\ p[2] <= Max(a[2], b[2])
SegSeg(a, b, c, d) ==
  LET s1 == Sign(Cross(a, b, c))  s2 == Sign(Cross(a, b, d))  s3 == Sign(Cross(c, d, a))  s4 == Sign(Cross(c, d, b)) IN
  IF s1 * s2 < 0 /\ s3 * s4 < 0 THEN 1 ELSE
  IF OnSeg(a, b, c) \/ OnSeg(a, b, d) \/ OnSeg(c, d, a) \/ OnSeg(c, d, b) THEN 0 ELSE -1
Centre3(P) == <<Sum([k \in 1..Len(P) |-> P[k][1]]), Sum([k \in 1..Len(P) |-> P[k][2]])>>      \* Len(P) times the centroid
Scale(P, n) == [k \in 1..Len(P) |-> <<n * P[k][1], n * P[k][2]>>]
Overlap(A, B) ==
  LET ab == {SegSeg(A[i], A[Nxt(A, i)], B[j], B[Nxt(B, j)]) : i \in 1..Len(A), j \in 1..Len(B)}
      va == {InPoly(B, A[i], 0) : i \in 1..Len(A)}
      vb == {InPoly(A, B[j], 0) : j \in 1..Len(B)}
      cc == {InPoly(Scale(B, Len(A)), Centre3(A), 0), InPoly(Scale(A, Len(B)), Centre3(B), 0)}
  IN IF 1 \in ab \cup va \cup vb \cup cc THEN 1
     ELSE IF 0 \in ab \cup va \cup vb THEN 0 ELSE -1
Agrees(answer, truth) == truth = 0 \/ answer = (truth = 1)

Verdict(st, ev) ==
  IF Has2(ev, "exc") THEN "operation failed: " \o ev.exc ELSE
  CASE ev.op = "overlap" ->
         IF ~Agrees(ev.res, Overlap(ev.a, ev.b)) THEN "overlap of two polygons" ELSE
         IF ev.res # ev.rev THEN "overlap test is not symmetric" ELSE ""
    [] ev.op = "points" ->
         IF Len(ev.res) # Len(ev.pts) THEN "one answer per point" ELSE
         IF \E k \in 1..Len(ev.pts) : ~Agrees(ev.res[k], InPoly(ev.poly, ev.pts[k], 0)) THEN "containment of a point" ELSE ""
    [] ev.op = "lookup" ->
         LET E == 1..Len(ev.exps)
             cls == [e \in E |-> IF InPoly(ev.exps[e].inner, ev.pos, 2) = 1 THEN 1 ELSE IF InPoly(ev.exps[e].outer, ev.pos, 2) = -1 THEN -1 ELSE 0]
             req == {e \in E : \E k \in 1..Len(ev.bands) : ev.bands[k] = ev.exps[e].band}
             got == Range(ev.found)
         IN IF ~NoDup(ev.found) THEN "an exposure is found twice" ELSE
            IF \E e \in got : e \notin req THEN "an exposure of another band is found" ELSE
            IF \E e \in req : cls[e] = 1 /\ e \notin got THEN "an exposure covering the position is not found" ELSE
            IF \E e \in got : cls[e] = -1 THEN "an exposure not covering the position is found" ELSE
            IF \E k \in 1..Len(ev.found) : ev.fband[k] # ev.exps[ev.found[k]].band THEN "band of a found exposure" ELSE ""
    [] ev.op = "bbox" ->
         LET us == {ev.box[k][1] : k \in 1..4}  vs == {ev.box[k][2] : k \in 1..4} IN
         IF Abs(MinOf(us) - ev.u0) > ev.tol \/ Abs(MaxOf(us) - ev.u1) > ev.tol
            \/ Abs(MinOf(vs) - ev.v0) > ev.tol \/ Abs(MaxOf(vs) - ev.v1) > ev.tol THEN "bounding box does not circumscribe the region" ELSE
         IF \E k \in 1..4 : (ev.box[k][1] # MinOf(us) /\ ev.box[k][1] # MaxOf(us) /\ Abs(ev.box[k][1] - MinOf(us)) > ev.tol /\ Abs(ev.box[k][1] - MaxOf(us)) > ev.tol)
         THEN "bounding box is not a box" ELSE
         IF Abs(Area2(ev.box, 1)) \div 2 < (MaxOf(us) - MinOf(us)) * (MaxOf(vs) - MinOf(vs)) - (ev.tol + 1) * 2 * (MaxOf(us) - MinOf(us) + MaxOf(vs) - MinOf(vs))
         THEN "bounding box corners are not in order" ELSE ""
    [] ev.op = "header" ->         \* Region.overlaps(header): bounding boxes on the sky; inside both or outside both conventions for the edge
         LET gap(im) == Max(Max(im[1] - ev.reg[2], ev.reg[1] - im[2]), Max(im[3] - ev.reg[4], ev.reg[3] - im[4])) IN
         IF gap(ev.inner) < -2 /\ ~ev.res THEN "overlap with an image is missed" ELSE
         IF gap(ev.outer) > 2 /\ ev.res THEN "overlap with a distant image" ELSE ""
    [] OTHER -> "unknown event"
=============================================================================
