------------------------------ MODULE MCPlace ------------------------------
(* Every relative placement of a box region and an image (units of half a  *)
(* pixel, region edges on odd values so that no corner lies on an edge):   *)
(* the rough test never drops an exposure that has a selected pixel.       *)
EXTENDS Geo, TLC, Json
CONSTANTS NX, NY, Lim
VARIABLES r, done
Odd(n) == {2 * k + 1 : k \in (-Lim)..(n + Lim - 1)}
Init == /\ r \in {<<x0, x1, y0, y1>> : x0 \in Odd(NX), x1 \in Odd(NX), y0 \in Odd(NY), y1 \in Odd(NY)}
        /\ r[1] < r[2] /\ r[3] < r[4] /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED r
In(x, y) == r[1] < 2 * x /\ 2 * x < r[2] /\ r[3] < 2 * y /\ 2 * y < r[4]
Selected == {<<x, y>> \in (0..(NX-1)) \X (0..(NY-1)) : \E dx, dy \in {0, 1} : In(x + dx, y + dy)}
Rough == ~(r[2] < 0 \/ r[1] > 2 * NX \/ r[4] < 0 \/ r[3] > 2 * NY)
Sound == Selected # {} => Rough
Emit == PrintT("EDGE " \o ToJson(r))
=============================================================================
