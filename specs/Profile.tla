------------------------------ MODULE Profile -------------------------------
(***************************************************************************)
(* C23: the light profile of a galaxy.  One trace is one session with one  *)
(* profile (index, half-light radius); every helper answers about the same *)
(* light, and a galaxy source answers for the parameters it holds now.     *)
(*   enclosed  fraction of the light within a grid of radii                *)
(*   kron      first-moment radii, each within a maximum radius (0: none)  *)
(*   isophote  radii of given surface brightnesses                         *)
(*   pairs     answers next to what the profile (or mixture) implies       *)
(*   set       a galaxy source is given (parameters); held: what it has    *)
(*   table     a file of fitted mixtures                                   *)
(* Units: radii 1/1000 of the half-light radius, fractions 1e-6, answers   *)
(* relative 1e-6.  grid: the enclosed light as known so far, from which    *)
(* the moments are bounded below and above without any further oracle.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
InitState(c) == [grid |-> <<>>, held |-> <<>>]
Apply(st, ev) ==
  CASE ev.op = "enclosed" -> [st EXCEPT !.grid = ev.pts]
    [] ev.op = "set" -> [st EXCEPT !.held = ev.par]
    [] OTHER -> st
AbsV(x) == IF x < 0 THEN -x ELSE x
Near(p, tol) == AbsV(p[1] - p[2]) <= tol
Enclosed(ev) ==
  LET n == Len(ev.pts) IN
  IF \E k \in 1..n : ev.pts[k][2] < 0 \/ ev.pts[k][2] > 1000000 THEN "a fraction of the light is not between none and all" ELSE
  IF \E k \in 2..n : ev.pts[k][1] >= ev.pts[k - 1][1] /\ ev.pts[k][2] < ev.pts[k - 1][2] - 1 THEN "more light within a smaller radius" ELSE
  IF \E k \in 1..n : ev.pts[k][1] = 1000 /\ AbsV(ev.pts[k][2] - 500000) > 2 THEN "the half-light radius does not hold half the light" ELSE
  IF \E k \in 1..n : AbsV(ev.pts[k][2] - ev.want[k]) > 3 THEN "the light within a radius is not the profile's" ELSE ""
\* bounds of the first moment of the light within grid point m, in radius * fraction / 100
RECURSIVE Lower(_, _), Upper(_, _)
D(g, k) == (g[k + 1][2] - g[k][2]) \div 100
Lower(g, m) == IF m <= 1 THEN 0 ELSE Lower(g, m - 1) + g[m - 1][1] * D(g, m - 1)
Upper(g, m) == IF m <= 1 THEN g[1][1] * (g[1][2] \div 100) ELSE Upper(g, m - 1) + g[m][1] * (D(g, m - 1) + 1)
Within(g, q) ==
  LET m == CHOOSE m \in 1..Len(g) : g[m][1] = q.rmax
      f == g[m][2] \div 100
      slack == q.got + f + 20 * Len(g) + g[1][1]          \* rounding of radii and fractions
  IN q.got * f >= Lower(g, m) - slack /\ q.got * f <= Upper(g, m) + slack
Kron(st, ev) ==
  LET n == Len(ev.asked) IN
  IF \E k \in 1..n : ev.asked[k].rmax # 0 /\ ev.asked[k].got > ev.asked[k].rmax THEN "a first-moment radius beyond the light it is the moment of" ELSE
  IF \E j, k \in 1..n : ev.asked[j].rmax # 0 /\ (ev.asked[k].rmax = 0 \/ ev.asked[k].rmax > ev.asked[j].rmax)
                        /\ ev.asked[k].got < ev.asked[j].got - 1 THEN "the first-moment radius shrinks as more light is included" ELSE
  IF \E k \in 1..n : ev.asked[k].rmax # 0 /\ (\E m \in 1..Len(st.grid) : st.grid[m][1] = ev.asked[k].rmax) /\ ~Within(st.grid, ev.asked[k])
    THEN "the first-moment radius is not that of the enclosed light" ELSE
  IF \E k \in 1..n : ~Near(ev.asked[k].rel, 20) THEN "the first-moment radius is not the profile's" ELSE ""
Isophote(ev) ==
  LET n == Len(ev.asked) IN
  IF \E j, k \in 1..n : ev.asked[j].level > ev.asked[k].level /\ ev.asked[j].got > ev.asked[k].got + 1 THEN "a brighter isophote lies outside a fainter one" ELSE
  IF \E k \in 1..n : ~Near(ev.asked[k].rel, 20) THEN "the brightness at an isophotal radius is another" ELSE ""
Pairs(ev) ==
  IF Len(ev.pairs) # ev.n THEN ev.what \o ": another number of answers" ELSE
  IF \E k \in 1..ev.n : ~Near(ev.pairs[k], ev.tol) THEN ev.what ELSE ""
Ask(st, ev) ==
  IF ev.par # st.held THEN "the source does not hold the parameters it was given" ELSE Pairs(ev)
Row(r) ==
  IF r.key # r.want THEN "a row of the file is for another profile" ELSE
  IF ~Near(r.total, 5) THEN "the amplitudes in the file do not sum to one" ELSE
  IF r.neg THEN "a negative amplitude in the file" ELSE
  IF r.model > 100 THEN "the model in the file is not that of its amplitudes" ELSE
  IF r.truth > 100 THEN "the profile in the file is not that of its row" ELSE
  IF r.smooth > 20000 THEN "the smoothed profile in the file is not that of its row" ELSE
  IF r.chi # <<>> /\ ~Near(r.chi, 200) THEN "the misfit in the file is not that of its model" ELSE
  IF r.start # <<>> /\ r.start[1] > r.start[2] + 10 THEN "a fit is worse than where it started" ELSE
  IF r.read > 20 THEN "a source read from the file has other amplitudes" ELSE
  IF r.shape > 100 THEN "a source read from the file has another profile" ELSE
  IF r.text > 1000 THEN "the text table has other amplitudes" ELSE ""
Table(ev) ==
  IF Len(ev.rows) # ev.n THEN "not one row per profile" ELSE
  IF ~ev.meta THEN "the file does not describe its own fit" ELSE
  LET b == {k \in 1..ev.n : Row(ev.rows[k]) # ""} IN
  IF b = {} THEN "" ELSE Row(ev.rows[CHOOSE k \in b : \A j \in b : k <= j])
Verdict(st, ev) ==
  IF "exc" \in DOMAIN ev THEN ev.op \o " failed: " \o ev.exc ELSE
  CASE ev.op = "enclosed" -> Enclosed(ev) [] ev.op = "kron" -> Kron(st, ev) [] ev.op = "isophote" -> Isophote(ev)
    [] ev.op = "pairs" -> Pairs(ev) [] ev.op = "set" -> "" [] ev.op = "ask" -> Ask(st, ev) [] ev.op = "table" -> Table(ev)
=============================================================================
