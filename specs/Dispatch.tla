------------------------------ MODULE Dispatch ------------------------------
(***************************************************************************)
(* C05: the parent's task queue (MPIQueue) and event loop (do_parent).     *)
(* Events are what crosses the boundary of the parent: messages on the     *)
(* communicator, waits and completions of receive requests, check-outs and *)
(* check-ins of the scene, results handed to the caller of collect.        *)
(*                                                                         *)
(* st.task[t] = [child, src, fix, tag, state] with state                   *)
(*   "made"  checked out (or created), not sent                            *)
(*   "sent"  at its worker, no receive posted yet                          *)
(*   "out"   receive posted (outstanding)                                  *)
(*   "back"  result delivered to the parent                                *)
(*   "in"    result handed over / checked in                               *)
(***************************************************************************)
EXTENDS Geo, TLC
Has2(r, f) == f \in DOMAIN r
\* cfg: n workers, nsrc sources, target, draws, mode ("queue" or "parent")
InitState(c) == [cfg |-> c, task |-> <<>>, stopped |-> {}, niter |-> [s \in 1..c.nsrc |-> 0], done |-> FALSE]
T(st) == 1..Len(st.task)
InState(st, S) == {t \in T(st) : st.task[t].state \in S}
Holding(st) == {st.task[t].child : t \in InState(st, {"sent", "out"})}
Out(st) == InState(st, {"out"})
ActiveSrc(st) == UNION {Range(st.task[t].src) : t \in InState(st, {"made", "sent", "out", "back"})}
Undone(st) == \E s \in 1..st.cfg.nsrc : Abs(st.niter[s]) < st.cfg.target
\* the task a receive from this worker with this tag (-1: any) will answer
Answers(st, ev) == {t \in InState(st, {"sent"}) : st.task[t].child = ev.source /\ ev.tag \in {-1, st.task[t].tag}}

Apply(st, ev) ==
  CASE ev.op = "make" -> [st EXCEPT !.task = Append(@, [child |-> 0, src |-> ev.src, fix |-> ev.fix, tag |-> ev.tag, state |-> "made"])]
    [] ev.op = "send" -> [st EXCEPT !.task[ev.t].state = "sent", !.task[ev.t].child = ev.dest, !.task[ev.t].tag = ev.tag]
    [] ev.op = "irecv" -> [st EXCEPT !.task[CHOOSE t \in Answers(st, ev) : TRUE].state = "out"]
    [] ev.op = "deliver" -> [st EXCEPT !.task = [t \in T(st) |-> IF t \in Range(ev.ts) THEN [@[t] EXCEPT !.state = "back"] ELSE @[t]]]
    [] ev.op = "hand" -> [st EXCEPT !.task = [t \in T(st) |-> IF t \in Range(ev.ts) THEN [@[t] EXCEPT !.state = "in"] ELSE @[t]]]
    [] ev.op = "checkin" ->
         [st EXCEPT !.task[ev.t].state = "in",
                    !.niter = [s \in DOMAIN @ |-> @[s] + IF s \in Range(st.task[ev.t].src) THEN ev.niter ELSE 0]]
    [] ev.op = "stop" -> [st EXCEPT !.stopped = @ \cup {ev.dest}]
    [] ev.op = "end" -> [st EXCEPT !.done = TRUE]
    [] OTHER -> st

Verdict(st, ev) ==
  CASE ev.op = "make" ->
         IF Range(ev.src) \cap ActiveSrc(st) # {} THEN "a source is in two outstanding tasks" ELSE ""
    [] ev.op = "send" ->
         IF ev.t \notin InState(st, {"made"}) THEN "message carries no fresh task" ELSE
         IF ev.dest \notin 1..st.cfg.n THEN "no such worker" ELSE
         IF ev.dest \in Holding(st) THEN "task sent to a busy worker" ELSE
         IF ev.dest \in st.stopped THEN "task sent to a stopped worker" ELSE
         \* a task submitted without a tag of its own may share one
         IF ev.tag < 0 THEN "task sent with an invalid tag" ELSE
         IF ~ev.free /\ \E t \in T(st) : t # ev.t /\ st.task[t].tag = ev.tag THEN "task tag used twice" ELSE ""
    [] ev.op = "irecv" ->
         IF Answers(st, ev) = {} THEN "receive does not match the task sent" ELSE ""
    [] ev.op = "wait" ->
         IF Cardinality(Range(ev.ts)) # Len(ev.ts) \/ Range(ev.ts) # Out(st) THEN "waits on something else than the outstanding receives" ELSE
         IF ev.ts = <<>> /\ ev.blocking THEN "waits for a result when none is outstanding" ELSE ""
    [] ev.op = "deliver" ->
         IF ~(Range(ev.ts) \subseteq Out(st)) THEN "environment" ELSE ""
    [] ev.op = "hand" ->      \* what collect() returned to its caller, in order
         IF ~NoDup(ev.ts) \/ ~(Range(ev.ts) \subseteq InState(st, {"back"})) THEN "a result was returned that was not just collected" ELSE
         IF Range(ev.ts) # InState(st, {"back"}) THEN "a collected result was lost" ELSE
         IF Range(ev.idle) # (1..st.cfg.n) \ Holding(st) \/ ~NoDup(ev.idle) THEN "idle list is wrong" ELSE ""
    [] ev.op = "checkin" ->
         IF ev.t \notin InState(st, {"back"}) THEN "check-in of a result that is not there (or twice)" ELSE
         IF ev.ids # st.task[ev.t].src THEN "check-in of the wrong sources" ELSE
         IF ev.fix # st.task[ev.t].fix THEN "check-in of the wrong fixed sources" ELSE
         IF ev.cov # ev.t THEN "check-in with another task's covariances" ELSE
         IF ev.task # ToString(st.task[ev.t].tag) THEN "check-in logged under another task's id" ELSE
         IF ev.niter # st.cfg.draws THEN "check-in with the wrong number of iterations" ELSE ""
    [] ev.op = "stop" ->
         IF Holding(st) # {} \/ Out(st) # {} THEN "workers stopped while tasks are outstanding" ELSE
         IF ev.dest \in st.stopped THEN "worker stopped twice" ELSE
         IF InState(st, {"made", "back"}) # {} /\ st.cfg.mode = "parent" THEN "workers stopped before all results were checked in" ELSE ""
    [] ev.op = "refused" ->   \* a request the queue must refuse, with nothing sent
         IF ev.what = "submit" /\ Cardinality(Holding(st)) < st.cfg.n THEN "submission refused though a worker is idle" ELSE
         IF ev.what = "collect" /\ Out(st) # {} THEN "collection refused though results are outstanding" ELSE
         IF ev.what = "closeout" /\ Out(st) = {} THEN "close-out refused though all workers are idle" ELSE ""
    [] ev.op = "end" ->
         IF Has2(ev, "exc") THEN "the parent failed: " \o ev.exc ELSE
         IF InState(st, {"made", "sent", "out", "back"}) # {} THEN "a dispatched task was never checked in" ELSE
         IF Undone(st) THEN "ended before the iteration target" ELSE
         IF ev.nact # 0 \/ ev.nfix # 0 \/ ev.flags # 0 THEN "sources left active at the end" ELSE
         IF ev.niter # st.niter THEN "iteration counts at the end" ELSE
         IF st.stopped # 1..st.cfg.n THEN "a worker was never told to stop" ELSE
         IF ~ev.saved THEN "final scene was not written" ELSE ""
    [] OTHER -> IF ev.op = "exc" THEN "the queue failed: " \o ev.exc ELSE ""
=============================================================================
