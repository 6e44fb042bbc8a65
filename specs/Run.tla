-------------------------------- MODULE Run --------------------------------
(***************************************************************************)
(* C16: a finished run: patches checked in one after another, each with    *)
(* its own member sources, and the catalogues made from their files.       *)
(* cfg.n, cfg.ids[s], cfg.bands, cfg.shapes, cfg.init[s][j] (j over        *)
(*   bands \o shapes), cfg.ns number of samples kept                       *)
(* cfg.patches[p] = [id, src, names, table, lnp, wall, sig]: source numbers *)
(*   in the order of the patch, parameter names of the patch, tokens of     *)
(*   each parameter of each source at each iteration, uncertainties sig     *)
(*   [band][source] (empty when there is no precision matrix)               *)
(* The state is the log: the sequence of patches checked in so far.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Has2(r, f) == f \in DOMAIN r
Idx(q) == 1..Len(q)
Ran(q) == {q[i] : i \in Idx(q)}
Abs(a) == IF a < 0 THEN 0 - a ELSE a
Blank == 1999999999
Max(S) == CHOOSE a \in S : \A b \in S : b <= a
At(q, v) == CHOOSE i \in Idx(q) : q[i] = v
Tail2(q, n) == SubSeq(q, Len(q) - n + 1, Len(q))
Has(c, p, s) == s \in Ran(c.patches[p].src)
\* positions in a list of patches that contained source s / knew the parameter too
In(c, log, s) == {i \in Idx(log) : Has(c, log[i], s)}
Knew(c, log, s, name) == {i \in In(c, log, s) : name \in Ran(c.patches[log[i]].names)}
Chain(c, p, s, name) == LET x == c.patches[p] IN x.table[At(x.src, s)][At(x.names, name)]
Names(c) == c.bands \o c.shapes
\* current value of a parameter: the end of the last chain that had it
Val(c, log, s, j) == LET name == Names(c)[j]  K == Knew(c, log, s, name) IN
   IF K = {} THEN c.init[s][j] ELSE LET ch == Chain(c, log[Max(K)], s, name) IN ch[Len(ch)]
Final(c, log) == [s \in 1..c.n |-> [j \in Idx(Names(c)) |-> Val(c, log, s, j)]]
LogOf(c, log, s) == LET RECURSIVE f(_)
                        f(k) == IF k = 0 THEN <<>> ELSE f(k - 1) \o (IF Has(c, log[k], s) THEN <<c.patches[log[k]].id>> ELSE <<>>)
                    IN f(Len(log))
InitState(c) == [cfg |-> c, log |-> <<>>]
Apply(st, ev) == IF ev.op = "checkin" THEN [st EXCEPT !.log = Append(@, ev.p)] ELSE st

MetaVerdict(c, log, ev) ==
  IF ev.plog # [i \in Idx(log) |-> c.patches[log[i]].id] THEN "the log of patches" ELSE
  IF ev.slog # [s \in 1..c.n |-> LogOf(c, log, s)] THEN "the log of sources" ELSE
  IF ev.final # Final(c, log) THEN "the final catalogue is not the state of the scene" ELSE
  IF ev.ids # c.ids THEN "the final catalogue has other identifiers" ELSE ""
\* rows of a combined sample catalogue: [id, idx, pid, wall, lnp, vals] with vals[j] over all bands and shapes
RowVerdict(c, list, s, row) ==
  LET I == In(c, list, s) IN
  IF I = {} THEN (IF row.id \in {-1, c.ids[s]} THEN "" ELSE "a source that was not sampled has another's identity") ELSE
  LET p == list[Max(I)]  x == c.patches[p] IN
  IF row.id # c.ids[s] \/ row.idx # s - 1 THEN "a row of the sample catalogue has another identity" ELSE
  IF row.pid # x.id THEN "a row of the sample catalogue has another patch" ELSE
  IF row.wall # x.wall \/ row.lnp # Tail2(x.lnp, c.ns) THEN "a row of the sample catalogue has another patch's probabilities" ELSE
  IF \E j \in Idx(row.names) : IF row.names[j] \in Ran(x.names) THEN row.vals[j] # Tail2(Chain(c, p, s, row.names[j]), c.ns)
                               ELSE Ran(row.vals[j]) # {Blank} THEN "a row of the sample catalogue has another chain" ELSE
  IF ~(Ran(x.names) \subseteq Ran(row.names)) THEN "a parameter is missing from the sample catalogue" ELSE ""
SamplesVerdict(c, log, ev) ==
  LET list == IF ev.all THEN log ELSE ev.list
      need == IF ev.all THEN c.n ELSE Max(UNION {Ran(c.patches[p].src) : p \in Ran(list)})
      bad == {s \in 1..c.n : s <= Len(ev.rows) /\ RowVerdict(c, list, s, ev.rows[s]) # ""}
  IN IF Len(ev.rows) < need \/ Len(ev.rows) > c.n THEN "the sample catalogue does not have a row per source" ELSE
     IF bad # {} THEN LET s == CHOOSE s \in bad : TRUE IN RowVerdict(c, list, s, ev.rows[s]) ELSE
     IF ev.disk # <<>> /\ ev.disk # ev.rows THEN "the written sample catalogue is another one" ELSE ""
\* flux uncertainties in 1/1000; ev.def the default of each source and band
NearU(a, b) == Abs(a - b) <= 2 + Abs(b) \div 100000
UncVerdict(c, log, ev, rows) ==
  LET J(b) == At(c.bands, b)
      K(s, b) == {i \in Knew(c, log, s, b) : c.patches[log[i]].sig # <<>>}
      ok(s, b) ==
        IF K(s, b) = {} THEN NearU(rows[s][J(b)], ev.def[s][J(b)]) ELSE
        LET x == c.patches[log[Max(K(s, b))]]
            ch == x.table[At(x.src, s)][At(x.names, b)]
            f == ch[Len(ch)]
            sig == x.sig[At(x.names, b)][At(x.src, s)]
            floor == (Abs(f) * 1000) \div ev.snr
        IN \/ NearU(rows[s][J(b)], IF floor > sig THEN floor ELSE sig) /\ f >= 0
           \/ f < 0 /\ NearU(rows[s][J(b)], sig)
           \/ f < 0 /\ floor > sig /\ NearU(rows[s][J(b)], floor)
  IN IF Len(rows) # c.n THEN "one row of uncertainties per source" ELSE
     IF \E s \in 1..c.n, b \in Ran(c.bands) : ~ok(s, b) THEN "a flux uncertainty is not that source's own" ELSE ""
MultiVerdict(c, log, ev) ==
  LET S == {s \in 1..c.n : Cardinality(In(c, log, s)) > 1} IN
  IF {ev.rep[i].s : i \in Idx(ev.rep)} # S \/ Len(ev.rep) # Cardinality(S) THEN "the sources in several patches" ELSE
  IF \E i \in Idx(ev.rep) : ev.rep[i].pids # LogOf(c, log, ev.rep[i].s) THEN "the patches of a source in several patches" ELSE
  IF \E i \in Idx(ev.rep) : LET r == ev.rep[i] IN Len(r.chains) # Len(r.pids) \/ \E k \in Idx(r.chains) :
        LET p == log[CHOOSE q \in Idx(log) : c.patches[log[q]].id = r.pids[k]]  x == c.patches[p] IN
        \E j \in Idx(r.names) : IF r.names[j] \in Ran(x.names) THEN r.chains[k][j] # Chain(c, p, r.s, r.names[j])
                                ELSE Ran(r.chains[k][j]) # {Blank}
     THEN "a chain of a source in several patches is not its own" ELSE ""
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
\* mean times number of samples
StatsVerdict(c, log, ev) ==
  IF {ev.rep[i].s : i \in Idx(ev.rep)} # {s \in 1..c.n : Cardinality(In(c, log, s)) > 1} THEN "statistics of the sources in several patches" ELSE
  IF \E i \in Idx(ev.rep) : LET r == ev.rep[i]  pids == LogOf(c, log, r.s) IN \E k \in Idx(pids) :
        LET p == log[CHOOSE q \in Idx(log) : c.patches[log[q]].id = pids[k]]  x == c.patches[p] IN
        \E j \in Idx(r.names) : r.names[j] \in Ran(x.names) /\
            LET ch == Chain(c, p, r.s, r.names[j])
                m == IF ev.n < Len(ch) THEN ev.n ELSE Len(ch)
            IN Abs(r.sums[k][j] - Sum(Tail2(ch, m))) > 2
     THEN "statistics of a source in several patches" ELSE ""
PostopVerdict(c, log, ev) ==
  IF ev.rows # Final(c, log) THEN "the post-optimisation catalogue does not carry the final parameters" ELSE
  IF ev.ids # c.ids \/ ev.idx # [s \in 1..c.n |-> s - 1] THEN "the post-optimisation catalogue has other identifiers" ELSE
  IF \E s \in Idx(ev.niter) : ev.niter[s] # 0 \/ ev.npatch[s] # 0 THEN "counters of the post-optimisation catalogue are not cleared" ELSE
  IF Ran(ev.filters) # Ran(ev.want) THEN "the post-optimisation catalogue names other bands" ELSE
  IF Has2(ev, "recexc") THEN "the post-optimisation catalogue is not a valid input: " \o ev.recexc ELSE
  IF ev.rec # [s \in 1..c.n |-> [j \in Idx(ev.recnames) |-> Val(c, log, s, At(Names(c), ev.recnames[j]))]] THEN "the post-optimisation catalogue reads back differently" ELSE
  IF ev.unc # <<>> THEN UncVerdict(c, log, ev, ev.unc) ELSE "uncertainties are missing"
\* regions: <<ra, dec, width, height, angle>> tokens with tolerance ev.tol[k]
RegVerdict(ev) ==
  IF Len(ev.got) # Len(ev.want) THEN "one region per source" ELSE
  IF \E s \in Idx(ev.want) : \E k \in Idx(ev.tol) : Abs(ev.got[s][k] - ev.want[s][k]) > ev.tol[k] THEN "a region is not that of its source" ELSE
  IF ev.texts # ev.wanttexts THEN "region labels" ELSE ""
Verdict(st, ev) ==
  LET c == st.cfg  log == st.log IN
  IF Has2(ev, "exc") THEN "operation raises " \o ev.exc ELSE
  CASE ev.op = "checkin" -> ""
    [] ev.op = "meta" -> MetaVerdict(c, log, ev)
    [] ev.op = "samples" -> SamplesVerdict(c, log, ev)
    [] ev.op = "unc" -> IF ev.ids # c.ids \/ ev.idx # [s \in 1..c.n |-> s - 1] THEN "uncertainties have other identifiers" ELSE UncVerdict(c, log, ev, ev.rows)
    [] ev.op = "multi" -> MultiVerdict(c, log, ev)
    [] ev.op = "stats" -> StatsVerdict(c, log, ev)
    [] ev.op = "postop" -> PostopVerdict(c, log, ev)
    [] ev.op = "reg" -> RegVerdict(ev)
    [] OTHER -> "trace: unknown event"
=============================================================================
