----------------------------- MODULE MCDispatch -----------------------------
(* The parent's event loop as a program over the Dispatch state machine,   *)
(* with the environment choosing which outstanding receives complete, and  *)
(* in which order, at every collection.  Sources are their own patches.    *)
EXTENDS Dispatch, Json
CONSTANTS MaxTasks, N, S, Target, Draws, Lim          \* Lim/100: active fraction limit
VARIABLES st, pc, idle, got, sched
vars == <<st, pc, idle, got, sched>>
Cfg == [n |-> N, nsrc |-> S, target |-> Target, draws |-> Draws, mode |-> "parent"]
Init == /\ st = InitState(Cfg) /\ pc = "loop" /\ idle = [k \in 1..N |-> k] /\ got = FALSE /\ sched = <<>>

Do(s, ev) == IF Verdict(s, ev) = "" THEN Apply(s, ev) ELSE Assert(FALSE, <<Verdict(s, ev), ev>>)
\* check out source s, send it to the first idle worker, post the receive
Submit(s0, s) ==
  LET a == Do(s0, [op |-> "make", src |-> <<s>>, fix |-> <<>>, tag |-> Len(s0.task) + 1])
      t == Len(a.task)
      b == Do(a, [op |-> "send", t |-> t, dest |-> Head(idle), tag |-> t, free |-> FALSE])
  IN Do(b, [op |-> "irecv", source |-> Head(idle), tag |-> t])
RECURSIVE CheckAll(_, _)
CheckAll(s, ts) == IF ts = <<>> THEN s
  ELSE LET t == Head(ts)
       IN CheckAll(Do(s, [op |-> "checkin", t |-> t, ids |-> s.task[t].src, fix |-> s.task[t].fix, cov |-> t,
                          task |-> ToString(s.task[t].tag), niter |-> Draws]), Tail(ts))
Pick(s) == /\ pc = "loop" /\ Undone(st) /\ s \notin ActiveSrc(st)
           /\ st' = Submit(st, s) /\ idle' = Tail(idle) /\ got' = TRUE /\ pc' = "collect" /\ UNCHANGED sched
Refused == /\ pc = "loop" /\ Undone(st) /\ ActiveSrc(st) # {}
           /\ got' = FALSE /\ pc' = "collect" /\ UNCHANGED <<st, idle, sched>>
Finish == pc = "loop" /\ ~Undone(st) /\ pc' = "drain" /\ UNCHANGED <<st, idle, got, sched>>
Sparse == Cardinality(ActiveSrc(st)) * 100 < Lim * S
Blocking == idle = <<>> \/ ~Sparse \/ ~got
OutSeq == SortBy(Out(st), [t \in T(st) |-> t])
Collect(ts, rev) ==
  LET q == SortBy(ts, [t \in T(st) |-> IF rev THEN -t ELSE t])
      a == Do(st, [op |-> "wait", ts |-> OutSeq, blocking |-> Blocking])
      b == Do(a, [op |-> "deliver", ts |-> q])
  IN /\ pc = "collect"
     /\ st' = CheckAll(b, q)
     /\ idle' = idle \o [k \in 1..Len(q) |-> st.task[q[k]].child]
     /\ pc' = "loop" /\ got' = got
     /\ sched' = Append(sched, [c |-> [k \in 1..Len(OutSeq) |-> IF OutSeq[k] \in ts THEN 1 ELSE 0], r |-> rev])
CollectAny == \E ts \in SUBSET Out(st), rev \in {FALSE, TRUE} :
                /\ (Blocking => ts # {})
                /\ (rev => Cardinality(ts) > 1)
                /\ Collect(ts, rev)
Drain == /\ pc = "drain"
         /\ st' = CheckAll(Do(st, [op |-> "deliver", ts |-> OutSeq]), OutSeq)
         /\ idle' = idle \o [k \in 1..Len(OutSeq) |-> st.task[OutSeq[k]].child]
         /\ pc' = "close" /\ UNCHANGED <<got, sched>>
RECURSIVE StopAll(_, _)
StopAll(s, k) == IF k = 0 THEN s ELSE StopAll(Do(s, [op |-> "stop", dest |-> k]), k - 1)
Close == /\ pc = "close"
         /\ st' = Do(StopAll(st, N), [op |-> "end", nact |-> 0, nfix |-> 0, flags |-> 0, niter |-> st.niter, saved |-> TRUE])
         /\ pc' = "done" /\ UNCHANGED <<idle, got, sched>>
Next == (\E s \in 1..S : Pick(s)) \/ Refused \/ Finish \/ CollectAny \/ Drain \/ Close
\* liveness: a source that is idle and short again and again is eventually drawn
Fair == /\ WF_vars(Next) /\ \A s \in 1..S : SF_vars(Pick(s))
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fair
Terminates == <>(pc = "done")
Bound == Len(st.task) <= MaxTasks
NoSched == <<st, pc, idle, got>>
OneTaskPerWorker == \A t, u \in InState(st, {"sent", "out"}) : t # u => st.task[t].child # st.task[u].child
IdleExact == Range(idle) = (1..N) \ Holding(st) /\ NoDup(idle)
NeverWaitEmpty == (pc = "collect" /\ Blocking) => Out(st) # {}
AlwaysIdleWorker == pc = "loop" /\ Undone(st) => idle # <<>>
Clean == pc = "done" => InState(st, {"made", "sent", "out", "back"}) = {} /\ ~Undone(st)
Emit == pc' # "done" \/ PrintT("EDGE " \o ToJson([n |-> N, s |-> S, target |-> Target, draws |-> Draws, lim |-> Lim, sched |-> sched']))
\* liveness is checked on the quotient that forgets finished tasks
=============================================================================
