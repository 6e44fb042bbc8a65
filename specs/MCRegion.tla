------------------------------ MODULE MCRegion ------------------------------
(* Every pair of small convex polygons (boxes and triangles, both          *)
(* windings) and every grid point; the separating-axis and half-plane      *)
(* algorithms the code uses are checked against the definitions.           *)
EXTENDS Region, Json
CONSTANTS G, Mode
VARIABLES a, b, done
Pts == {<<x, y>> : x \in 0..G, y \in 0..G}
Boxes == {<<<<x0, y0>>, <<x1, y0>>, <<x1, y1>>, <<x0, y1>>>> : x0 \in 0..(G-1), y0 \in 0..(G-1), x1 \in 1..G, y1 \in 1..G}
Box == {q \in Boxes : q[1][1] < q[3][1] /\ q[1][2] < q[3][2]}
T2 == {<<x, y>> : x \in 0..2, y \in 0..2}
Tri == {q \in T2 \X T2 \X T2 : Cross(q[1], q[2], q[3]) # 0}
Rev(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
Polys == IF Mode = "box" THEN Box ELSE IF Mode = "tri" THEN {q \in Tri : q[1][1] * 3 + q[1][2] <= q[2][1] * 3 + q[2][2] /\ q[1][1] * 3 + q[1][2] <= q[3][1] * 3 + q[3][2]} ELSE Box
Init == a \in Polys /\ b \in Polys /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<a, b>>
Emit == PrintT("EDGE " \o ToJson([a |-> a, b |-> b]))
Proj(P, n) == {n[1] * P[k][1] + n[2] * P[k][2] : k \in 1..Len(P)}
Normals(P) == {<<P[Nxt(P, k)][2] - P[k][2], P[k][1] - P[Nxt(P, k)][1]>> : k \in 1..Len(P)}
\* separating axis theorem on closed polygons
Sat == ~\E n \in Normals(a) \cup Normals(b) : MaxOf(Proj(a, n)) < MinOf(Proj(b, n)) \/ MaxOf(Proj(b, n)) < MinOf(Proj(a, n))
SatRight == Agrees(Sat, Overlap(a, b))
\* the half-plane test with equal signs, in either winding
Half(P, p) == \A k \in 1..Len(P) : Sign(Cross(P[k], P[Nxt(P, k)], p)) = Sign(Cross(P[1], P[Nxt(P, 1)], p))
HalfRight == \A p \in Pts : Agrees(Half(a, p), InPoly(a, p, 0)) /\ Agrees(Half(Rev(a), p), InPoly(a, p, 0))
=============================================================================
