------------------------------ MODULE MCScene ------------------------------
(* Closed model: every history of requests over the given layouts, up to   *)
(* Depth operations; one behaviour is emitted per transition.              *)
EXTENDS Scene, Json, IOUtils
CONSTANTS Depth, MaxOut, NIters, Full
Cfgs == JsonDeserialize(IOEnv.CFGFILE)
VARIABLES ci, st, hist
Init == ci \in 1..Len(Cfgs) /\ st = InitState(Cfgs[ci]) /\ hist = <<>>

Outcome(s, seed, mf) == IF s.cfg.kind = "circ" THEN CircScene(s, seed) ELSE LinkScene(s, seed, mf)
Checkouts(s) ==
  IF Len(s.out) >= MaxOut THEN {} ELSE
  {LET o == Outcome(s, seed, mf)
   IN [op |-> "checkout", seed |-> seed, mf |-> mf, res |-> o.res, act |-> o.act, fix |-> o.fix, rad |-> o.rad,
       cx |-> o.cx, cy |-> o.cy, dig |-> 0] : seed \in Src(s), mf \in IF s.cfg.kind = "circ" THEN {-1} ELSE {-1, 1}}
\* a check-in: rows in order or reversed; parameters tagged by how often the source was checked in
Rev(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
Checkins(s) ==
  {LET ids == IF rev THEN Rev(s.out[k].a) ELSE s.out[k].a
   IN [op |-> "checkin", k |-> k, ids |-> ids, rev |-> rev, niter |-> ni, task |-> IF lg THEN "t" \o ToString(Len(s.plog)) ELSE "",
       hasb |-> bc, hasc |-> bc, flush |-> lg,
       vals |-> [j \in 1..Len(ids) |-> s.val[ids[j]]], px |-> [j \in 1..Len(ids) |-> s.px[ids[j]]],
       py |-> [j \in 1..Len(ids) |-> s.py[ids[j]]], rh |-> [j \in 1..Len(ids) |-> s.rh[ids[j]]],
       bnd |-> [j \in 1..Len(ids) |-> s.bnd[ids[j]]], cov |-> [j \in 1..Len(ids) |-> s.cov[ids[j]]], dig |-> 0]
     : k \in 1..Len(s.out), ni \in NIters,
       rev \in IF Full THEN {FALSE, TRUE} ELSE {TRUE}, lg \in IF Full THEN {FALSE, TRUE} ELSE {TRUE},
       bc \in IF Full THEN {FALSE, TRUE} ELSE {TRUE}}
Resets(s) == IF s.out # <<>> /\ Full THEN {[op |-> "reset", dig |-> 0]} ELSE {}
Next == /\ Len(hist) < Depth
        /\ \E ev \in Checkouts(st) \cup Checkins(st) \cup Resets(st) :
             /\ st' = Apply(st, ev) /\ hist' = Append(hist, ev)
        /\ ci' = ci
Brief(ev) == CASE ev.op = "checkout" -> [op |-> "checkout", seed |-> ev.seed, mf |-> ev.mf, res |-> ev.res, act |-> ev.act, fix |-> ev.fix]
               [] ev.op = "checkin" -> [op |-> "checkin", k |-> ev.k, rev |-> ev.rev, niter |-> ev.niter, task |-> ev.task,
                                        hasb |-> ev.hasb, hasc |-> ev.hasc, flush |-> ev.flush]
               [] OTHER -> [op |-> ev.op]
Emit == PrintT("EDGE " \o ToJson([c |-> ci, h |-> [k \in 1..Len(hist') |-> Brief(hist'[k])]]))
View == <<ci, [st EXCEPT !.cfg = 0]>>
Exclusive == InvExclusive(st)
Counts == InvCounts(st)
Logs == InvLogs(st)
\* the selection algorithm satisfies the declarative composition and exclusion properties, on every transition
Composed == LET ev == hist'[Len(hist')] IN
              /\ V1(st, ev) = ""
              /\ V4(st, ev) = ""
EmitC == Assert(Composed, <<"composition", ci, hist'>>) /\ Emit
=============================================================================
