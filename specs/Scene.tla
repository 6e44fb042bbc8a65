------------------------------- MODULE Scene -------------------------------
(***************************************************************************)
(* The master catalogue (forcepho.superscene): regions of sources are      *)
(* checked out to be fitted, checked back in with new parameters, written  *)
(* to disk, reset.  Lengths are integer milli-arcseconds in the scene      *)
(* frame.  Decides C01 (exclusive checkout), C02 (bookkeeping), C03        *)
(* (write-back isolation, logs, persistence), C04 (composition).           *)
(*                                                                         *)
(* cfg: n sources, x,y original positions, roi, rh, val0, constants of the *)
(*   scene (kind, maxactive, nscale, B, maxr, minr, buffer, strict,        *)
(*   target, frac [permille]).                                             *)
(* st: px,py,rh current positions and half-light radii; val,bnd,cov per    *)
(*   source parameters, bounds, covariance tokens; act,valid,niter,npatch, *)
(*   nact,nfix bookkeeping; slog,plog logs; out the outstanding patches;   *)
(*   dig digest of the whole implementation state after the last event;    *)
(*   disk what was last persisted.                                         *)
(***************************************************************************)
EXTENDS Geo, TLC

Has2(r, f) == f \in DOMAIN r
Tol == 6                                    \* mas: rounding of projected coordinates

InitState(c) ==
  [cfg |-> c, px |-> c.x, py |-> c.y, rh |-> c.rh, val |-> c.val, bnd |-> c.bnd, cov |-> c.cov,
   act |-> [s \in 1..c.n |-> 0], valid |-> [s \in 1..c.n |-> 1],
   niter |-> c.niter, npatch |-> c.npatch,
   nact |-> 0, nfix |-> 0, slog |-> [s \in 1..c.n |-> <<>>], plog |-> <<>>,
   out |-> <<>>, dig |-> c.dig]

Src(st) == 1..st.cfg.n
Held(st) == UNION {Range(st.out[k].a) : k \in 1..Len(st.out)}
Roi(st, s) == IF st.cfg.roi[s] < 0 THEN st.rh[s] ELSE st.cfg.roi[s]

(* ---------------- distances ---------------- *)
DistTo(st, s, cx, cy) == Hypot(st.cfg.x[s] - cx, st.cfg.y[s] - cy)   \* from the original position of s
Sep(st, s, t) == DistTo(st, s, st.cfg.x[t], st.cfg.y[t])

(* ---------------- circular scenes ---------------- *)
Outer(st, s, cx, cy) == DistTo(st, s, cx, cy) + st.cfg.nscale * st.rh[s]
Inner(st, s, cx, cy) == DistTo(st, s, cx, cy) - st.cfg.nscale * st.rh[s]

\* the algorithm, exactly, for the closed model: seed -> [res, act, fix, rad, cx, cy]
CircScene(st, seed) ==
  LET cx == st.px[seed]
      cy == st.py[seed]
      K  == {s \in Src(st) : DistTo(st, s, cx, cy) <= st.cfg.B}
      o  == [s \in K |-> Outer(st, s, cx, cy)]
      ord == SortBy(K, o)
      nin == Cardinality({s \in K : o[s] < st.cfg.maxr})
      na == Min(st.cfg.maxactive, nin)
      A  == SubSeq(ord, 1, na)
      rest == SubSeq(ord, na + 1, Len(ord))
      rad == Max(st.cfg.minr, MaxOf({o[s] : s \in Range(A)} \cup {0}))
      reach == SelectSeq(rest, LAMBDA s : Inner(st, s, cx, cy) < rad)
      F0 == SubSeq(reach, 1, Min(st.cfg.maxactive, Len(reach)))
      F  == IF F0 = <<>> THEN SubSeq(rest, 1, Min(1, Len(rest))) ELSE F0
  IN IF \E s \in K : st.act[s] = 1 \/ na = 0
     THEN [res |-> IF \E s \in K : st.act[s] = 1 THEN "refused" ELSE "exc", act |-> <<>>, fix |-> <<>>, rad |-> 0, cx |-> cx, cy |-> cy]
     ELSE [res |-> "ok", act |-> A, fix |-> F, rad |-> rad, cx |-> cx, cy |-> cy]

\* what a successful circular checkout around (cx, cy) must look like
CircOK(st, ev, seed) ==
  LET cx == ev.cx
      cy == ev.cy
      A == Range(ev.act)
      F == Range(ev.fix)
      O(s) == Outer(st, s, cx, cy)
      I(s) == Inner(st, s, cx, cy)
      near == {s \in Src(st) : DistTo(st, s, cx, cy) <= st.cfg.B - Tol}
      want == Max(st.cfg.minr, MaxOf({O(s) : s \in A} \cup {0}))
      reach == {s \in near \ A : I(s) < ev.rad - Tol}
  IN IF ev.act = <<>> THEN "no active source" ELSE
     IF Len(ev.act) > st.cfg.maxactive THEN "too many active sources" ELSE
     IF Len(ev.fix) > st.cfg.maxactive THEN "too many fixed sources" ELSE
     IF Abs(cx - st.px[seed]) > Tol \/ Abs(cy - st.py[seed]) > Tol THEN "region is not centred on the seed" ELSE
     IF \E s \in A \cup F : DistTo(st, s, cx, cy) > st.cfg.B + Tol THEN "source outside the boundary radius" ELSE
     IF \E s \in A : O(s) > st.cfg.maxr + Tol THEN "active source outside the maximum radius" ELSE
     IF Abs(ev.rad - want) > Tol THEN "radius does not fit the active sources" ELSE
     IF \E s \in near \ A : /\ O(s) < st.cfg.maxr - Tol
                            /\ Len(ev.act) < st.cfg.maxactive THEN "a source within reach was left out" ELSE
     IF \E s \in near \ A, a \in A : O(s) < O(a) - Tol THEN "active sources are not the nearest" ELSE
     IF \E f \in F : I(f) > ev.rad + Tol /\ ~(Len(ev.fix) = 1 /\ reach = {} /\ \A s \in near \ A : O(f) <= O(s) + Tol)
        THEN "fixed source does not reach into the region" ELSE
     IF \E s \in reach \ F : Len(ev.fix) < st.cfg.maxactive THEN "an overlapping source was not fixed" ELSE
     IF \E s \in reach \ F, f \in F : O(s) < O(f) - Tol THEN "fixed sources are not the nearest" ELSE ""

(* ---------------- friends of friends ---------------- *)
Linked(st, s, t) == s # t /\ Sep(st, s, t) < Roi(st, s) + Roi(st, t)
RECURSIVE Closure(_, _)
Closure(st, S) == LET T == S \cup {t \in Src(st) : \E s \in S : Linked(st, s, t)}
                  IN IF T = S THEN S ELSE Closure(st, T)
Group(st, s) == Closure(st, {s})
AmbiguousLinks(st) == \E s, t \in Src(st) : s < t /\ Abs(Sep(st, s, t) - Roi(st, s) - Roi(st, t)) <= 3

\* sort key d / (R + roi) as a cross-multiplied comparison; candidates around (cx,cy) with reach R
Before(st, s, t, cx, cy, R) ==
  DistTo(st, s, cx, cy) * (R + Roi(st, t)) <= DistTo(st, t, cx, cy) * (R + Roi(st, s))
Overlapping(st, cx, cy, R) == {s \in Src(st) : DistTo(st, s, cx, cy) < R + Roi(st, s)}
RECURSIVE SortMetric(_, _, _, _, _)
SortMetric(st, S, cx, cy, R) ==
  IF S = {} THEN <<>>
  ELSE LET m == CHOOSE x \in S : \A y \in S : Before(st, x, y, cx, cy, R)
       IN <<m>> \o SortMetric(st, S \ {m}, cx, cy, R)
AmbiguousOrder(st, S, cx, cy, R) ==
  \/ \E s \in Src(st) : Abs(DistTo(st, s, cx, cy) - R - Roi(st, s)) <= 3
  \/ \E s, t \in S : s < t /\ LET a == DistTo(st, s, cx, cy) * (R + Roi(st, t))
                                  b == DistTo(st, t, cx, cy) * (R + Roi(st, s))
                              IN Abs(a - b) <= 3 * (2 * R + Roi(st, s) + Roi(st, t))

\* walk over the candidates, adding whole groups; stops at the first group that does not fit
RECURSIVE Grow(_, _, _)
Grow(st, cand, whole) ==
  IF cand = <<>> THEN [whole |-> whole, part |-> {}, n |-> 0, first |-> 0]
  ELSE LET s == Head(cand)
           g == Group(st, s)
           av == st.cfg.maxactive - Cardinality(whole)
       IN IF s \in whole THEN Grow(st, Tail(cand), whole)
          ELSE IF Cardinality(g) > av
               THEN [whole |-> whole, part |-> g, first |-> s,
                     n |-> IF ~st.cfg.strict \/ whole = {} THEN av ELSE 0]
               ELSE Grow(st, Tail(cand), whole \cup g)

MeanPos(st, A, p) == SumSet(p, A) \div Cardinality(A)
MaxFixed(st, mf) == IF mf < 0 THEN st.cfg.maxactive ELSE mf

\* the algorithm for the closed model (ties and partial groups resolved by index)
LinkScene(st, seed, mf) ==
  LET cx0 == st.cfg.x[seed]
      cy0 == st.cfg.y[seed]
      cand == SortMetric(st, Overlapping(st, cx0, cy0, st.cfg.B), cx0, cy0, st.cfg.B)
      g == Grow(st, cand, {})
      idx == [s \in Src(st) |-> s]
      part == IF g.n = 0 THEN {} ELSE {g.first} \cup Range(SubSeq(SortBy(g.part \ {g.first}, idx), 1, g.n - 1))
      A == g.whole \cup part
      cx == MeanPos(st, A, st.px)
      cy == MeanPos(st, A, st.py)
      rad == Max(st.cfg.minr, MaxOf({DistTo(st, s, cx, cy) + Roi(st, s) + st.cfg.buffer : s \in A}))
      R == (rad * 6) \div 5
      fx == SortMetric(st, Overlapping(st, cx, cy, R) \ A, cx, cy, R)
      F == SubSeq(fx, 1, Min(Len(fx), MaxFixed(st, mf)))
      busy == {s \in Range(cand) \cup A \cup Range(F) : st.act[s] = 1}
  IN IF busy # {} THEN [res |-> "refused", act |-> <<>>, fix |-> <<>>, rad |-> 0, cx |-> cx0, cy |-> cy0]
     ELSE [res |-> "ok", act |-> SortBy(A, idx), fix |-> F, rad |-> rad, cx |-> cx, cy |-> cy]

LinkOK(st, ev, seed) ==
  LET cx0 == st.cfg.x[seed]
      cy0 == st.cfg.y[seed]
      cs == Overlapping(st, cx0, cy0, st.cfg.B)
      amb == AmbiguousLinks(st) \/ AmbiguousOrder(st, cs, cx0, cy0, st.cfg.B)
      g == Grow(st, SortMetric(st, cs, cx0, cy0, st.cfg.B), {})
      A == Range(ev.act)
      F == Range(ev.fix)
      cx == MeanPos(st, A, st.px)
      cy == MeanPos(st, A, st.py)
      want == Max(st.cfg.minr, MaxOf({DistTo(st, s, ev.cx, ev.cy) + Roi(st, s) + st.cfg.buffer : s \in A}))
      R == (ev.rad * 6) \div 5
      slack(s) == R + Roi(st, s) - DistTo(st, s, ev.cx, ev.cy)    \* > 0: overlaps the enlarged region
      mf == MaxFixed(st, ev.mf)
      sure == {s \in Src(st) \ A : slack(s) > 2 * Tol}
  IN IF ev.act = <<>> THEN "no active source" ELSE
     IF Len(ev.act) > st.cfg.maxactive THEN "too many active sources" ELSE
     IF Len(ev.fix) > mf THEN "too many fixed sources" ELSE
     IF seed \notin A THEN "the seed is not active" ELSE
     IF ~amb /\ ~(g.whole \subseteq A) THEN "a whole group that fits is missing" ELSE
     IF ~amb /\ ~((A \ g.whole) \subseteq g.part) THEN "active source from a group out of order" ELSE
     IF ~amb /\ Cardinality(A \ g.whole) # g.n THEN "partial group of the wrong size" ELSE
     IF ~amb /\ g.n > 0 /\ g.first \notin A THEN "partial group without its nearest member" ELSE
     IF Abs(ev.cx - cx) > Tol \/ Abs(ev.cy - cy) > Tol THEN "region is not centred on the active sources" ELSE
     IF Abs(ev.rad - want) > Tol THEN "radius does not fit the active sources" ELSE
     IF \E f \in F : slack(f) < -2 * Tol THEN "fixed source does not overlap the enlarged region" ELSE
     IF sure \ F # {} /\ Len(ev.fix) < mf THEN "an overlapping source was not fixed" ELSE
     IF \E s \in sure \ F, f \in F :
          DistTo(st, s, ev.cx, ev.cy) * (R + Roi(st, f)) < DistTo(st, f, ev.cx, ev.cy) * (R + Roi(st, s))
                                                           - 3 * Tol * (2 * R + Roi(st, s) + Roi(st, f))
        THEN "fixed sources are not the nearest" ELSE ""

(* ---------------- transitions ---------------- *)
Flag(f, S, v) == [s \in DOMAIN f |-> IF s \in S THEN v ELSE f[s]]
RemoveAt(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Pos(q, s) == CHOOSE k \in 1..Len(q) : q[k] = s

Apply(st, ev) ==
  CASE ev.op = "checkout" /\ ev.res = "ok" ->
         LET A == Range(ev.act)  F == Range(ev.fix)
         IN [st EXCEPT !.act = Flag(@, A, 1), !.valid = Flag(Flag(@, A, 0), F, 0),
                       !.nact = @ + Len(ev.act), !.nfix = @ + Len(ev.fix),
                       !.out = Append(@, [a |-> ev.act, f |-> ev.fix]), !.dig = ev.dig]
    [] ev.op = "checkin" ->
         LET A == Range(ev.ids)  p == st.out[ev.k]  F == Range(p.f)
             upd(f, new) == [s \in DOMAIN f |-> IF s \in A THEN new[Pos(ev.ids, s)] ELSE f[s]]
         IN [st EXCEPT !.val = upd(@, ev.vals), !.px = upd(@, ev.px), !.py = upd(@, ev.py), !.rh = upd(@, ev.rh),
                       !.bnd = IF ev.hasb THEN upd(@, ev.bnd) ELSE @,
                       !.cov = IF ev.hasc THEN upd(@, ev.cov) ELSE @,
                       !.act = Flag(@, A, 0), !.valid = Flag(Flag(@, A, 1), F, 1),
                       !.niter = [s \in DOMAIN @ |-> @[s] + IF s \in A THEN ev.niter ELSE 0],
                       !.npatch = [s \in DOMAIN @ |-> @[s] + IF s \in A /\ ev.niter > 0 THEN 1 ELSE 0],
                       !.nact = @ - Len(p.a), !.nfix = @ - Len(p.f),
                       !.slog = [s \in DOMAIN @ |-> IF s \in A /\ ev.task # "" THEN Append(@[s], ev.task) ELSE @[s]],
                       !.plog = IF ev.task # "" THEN Append(@, ev.task) ELSE @,
                       !.out = RemoveAt(@, ev.k), !.dig = ev.dig]
    [] ev.op = "reset" ->
         [st EXCEPT !.act = Flag(@, Src(st), 0), !.valid = Flag(@, Src(st), 1), !.niter = Flag(@, Src(st), 0),
                    !.npatch = Flag(@, Src(st), 0), !.nact = 0, !.nfix = 0, !.out = <<>>, !.dig = ev.dig]
    [] OTHER -> [st EXCEPT !.dig = ev.dig]

(* ---------------- verdicts ---------------- *)
\* C01
V1(st, ev) ==
  CASE ev.op = "checkout" /\ ev.res = "ok" ->
         IF ~(Range(ev.act) \cup Range(ev.fix) \subseteq Src(st)) THEN "unknown source handed out" ELSE
         IF ~NoDup(ev.act) \/ ~NoDup(ev.fix) THEN "a source is listed twice" ELSE
         IF Range(ev.act) \cap Range(ev.fix) # {} THEN "a source is both active and fixed" ELSE
         IF Range(ev.act) \cap Held(st) # {} THEN "active source is already active in an outstanding patch" ELSE
         IF Range(ev.fix) \cap Held(st) # {} THEN "fixed source is active in an outstanding patch" ELSE ""
    [] ev.op = "checkout" /\ ev.res # "ok" ->
         IF ev.dig # st.dig THEN "a refused checkout changed the scene" ELSE ""
    [] OTHER -> IF Has2(ev, "exc") THEN "check-in failed" ELSE ""

\* C02: the bookkeeping observed after the event is that of the specification
V2(st, ev) ==
  LET n == Apply(st, ev)
      p == ev.post
      W(w) == \/ \E s \in Src(st) : w[s] < 0
              \/ Abs(Sum(w) - 1000000) > st.cfg.n + 5
      Mono(w) == \E s, t \in Src(st) : /\ st.valid[s] = st.valid[t] /\ st.act[s] = st.act[t]
                                       /\ Abs(n.niter[s]) < Abs(n.niter[t])
                                       /\ w[s] < w[t] \/ (w[s] = w[t] /\ w[t] > 1000)
  IN IF Has2(ev, "exc") /\ ev.op # "checkout" THEN "operation failed" ELSE
     IF p.act # n.act THEN "active flags" ELSE
     IF p.valid # n.valid THEN "availability flags" ELSE
     IF p.niter # n.niter THEN "iteration counts" ELSE
     IF p.npatch # n.npatch THEN "patch counts" ELSE
     IF p.nact # n.nact THEN "active count" ELSE
     IF p.nfix # n.nfix THEN "fixed count" ELSE
     IF n.out = <<>> /\ (\E s \in Src(st) : p.act[s] # 0 \/ p.valid[s] # 1) THEN "source unavailable though nothing is outstanding" ELSE
     IF p.undone # (\E s \in Src(st) : Abs(n.niter[s]) < st.cfg.target) THEN "unfinished flag" ELSE
     IF p.sparse # (n.nact * 1000 < st.cfg.frac * st.cfg.n) THEN "sparse flag" ELSE
     IF ev.op = "weights" /\ W(ev.w) THEN "seed weights are no probability distribution" ELSE
     IF ev.op = "weights" /\ Mono(ev.w) THEN "seed weights favour a more iterated source" ELSE ""

\* C03
V3(st, ev) ==
  LET n == Apply(st, ev) IN
     IF Has2(ev, "exc") /\ ev.op # "checkout" THEN "operation failed" ELSE
     IF ev.post.val # n.val THEN "source parameters" ELSE
     IF ev.post.bnd # n.bnd THEN "prior bounds" ELSE
     IF ev.post.cov # n.cov THEN "covariances" ELSE
     IF ev.post.slog # n.slog THEN "source log" ELSE
     IF ev.post.plog # n.plog THEN "patch log" ELSE
     IF ev.op = "checkout" /\ ev.res = "ok" /\
        (ev.arow # [k \in 1..Len(ev.act) |-> st.val[ev.act[k]]] \/ ev.frow # [k \in 1..Len(ev.fix) |-> st.val[ev.fix[k]]])
        THEN "checked-out rows are not the stored parameters" ELSE
     IF ev.op = "query" /\ (ev.qb # [k \in 1..Len(ev.ids) |-> st.bnd[ev.ids[k]]]) THEN "bounds request" ELSE
     IF ev.op = "query" /\ (ev.qc # [k \in 1..Len(ev.ids) |-> st.cov[ev.ids[k]]]) THEN "covariance request" ELSE
     IF Has2(ev, "disk") /\ ~ev.disk.there THEN "no state on disk" ELSE
     IF Has2(ev, "disk") /\ ~ev.propagated THEN "exception swallowed" ELSE
     IF Has2(ev, "disk") /\ (ev.disk.val # n.val \/ ev.disk.act # n.act \/ ev.disk.valid # n.valid
                             \/ ev.disk.niter # n.niter \/ ev.disk.npatch # n.npatch) THEN "catalogue on disk" ELSE
     IF Has2(ev, "disk") /\ (ev.disk.slog # n.slog \/ ev.disk.plog # n.plog) THEN "log on disk" ELSE ""

\* C04
\* no source fits in the largest allowed circle around this seed: there is no patch to make
NoneFits(st, seed) == ~\E s \in Src(st) : /\ DistTo(st, s, st.px[seed], st.py[seed]) <= st.cfg.B - Tol
                                          /\ Outer(st, s, st.px[seed], st.py[seed]) < st.cfg.maxr - Tol
ScenesOK(st, ev, seed) == IF st.cfg.kind = "circ" THEN CircOK(st, ev, seed) ELSE LinkOK(st, ev, seed)
V4(st, ev) ==
  CASE ev.op = "checkout" /\ ev.res = "ok" ->
         IF ev.seed > 0 THEN ScenesOK(st, ev, ev.seed)
         ELSE IF \E s \in Src(st) : ScenesOK(st, ev, s) = "" THEN "" ELSE "no seed explains the patch"
    [] ev.op = "checkout" /\ ev.res = "refused" ->
         IF ev.seed > 0 /\ st.cfg.kind = "circ"
            /\ ~\E s \in Src(st) : st.act[s] = 1 /\ DistTo(st, s, st.px[ev.seed], st.py[ev.seed]) <= st.cfg.B + Tol
           THEN "refused without an active source in reach" ELSE
         IF \A s \in Src(st) : st.act[s] = 0 THEN "refused though nothing is active" ELSE ""
    [] ev.op = "checkout" /\ ev.res = "exc" ->
         IF st.cfg.kind = "circ" /\ (IF ev.seed > 0 THEN NoneFits(st, ev.seed) ELSE \E s \in Src(st) : NoneFits(st, s))
           THEN "" ELSE "checkout failed"
    [] ev.op = "groups" ->
         IF Has2(ev, "exc") THEN "group catalogue failed" ELSE
         IF AmbiguousLinks(st) THEN "" ELSE
         IF \E s, t \in Src(st) : (ev.gid[s] = ev.gid[t]) # (t \in Group(st, s)) THEN "groups are not the closure of overlap" ELSE
         IF Range(ev.gid) # 0..(Cardinality(Range(ev.gid)) - 1) THEN "group numbering" ELSE ""
    [] ev.op = "grow" ->
         IF Has2(ev, "exc") THEN "friends-of-friends failed" ELSE
         IF ~NoDup(ev.members) THEN "member listed twice" ELSE
         IF AmbiguousLinks(st) THEN "" ELSE
         IF Range(ev.members) # Group(st, ev.seed) THEN "friends are not the closure of overlap" ELSE ""
    [] ev.op = "circle" ->
         IF Has2(ev, "exc") THEN "circle lookup failed" ELSE
         IF ~NoDup(ev.members) THEN "member listed twice" ELSE
         IF \E s \in Src(st) : (DistTo(st, s, ev.cx, ev.cy) < ev.rad + Roi(st, s) - Tol) /\ s \notin Range(ev.members)
           THEN "overlapping source missed" ELSE
         IF \E s \in Range(ev.members) : DistTo(st, s, ev.cx, ev.cy) > ev.rad + Roi(st, s) + Tol
           THEN "source does not overlap the circle" ELSE ""
    [] OTHER -> ""

(* ---------------- properties of the specification itself ---------------- *)
InvExclusive(st) == \A j, k \in 1..Len(st.out) : j # k =>
                      /\ Range(st.out[j].a) \cap Range(st.out[k].a) = {}
                      /\ (j < k => Range(st.out[j].a) \cap Range(st.out[k].f) = {})
InvCounts(st) == /\ st.nact = SumSet([k \in 1..Len(st.out) |-> Len(st.out[k].a)], 1..Len(st.out))
                 /\ st.nfix = SumSet([k \in 1..Len(st.out) |-> Len(st.out[k].f)], 1..Len(st.out))
                 /\ {s \in Src(st) : st.act[s] = 1} = Held(st)
                 /\ (st.out = <<>> => \A s \in Src(st) : st.valid[s] = 1)
                 /\ \A s \in Held(st) : TRUE
InvLogs(st) == \A s \in Src(st) : Range(st.slog[s]) \subseteq Range(st.plog)
=============================================================================
