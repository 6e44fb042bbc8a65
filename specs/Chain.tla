------------------------------- MODULE Chain -------------------------------
(***************************************************************************)
(* C10: chains, catalogues made from them, and results on disk.             *)
(* cfg.names  parameter names in vector order (bands, then shapes)          *)
(* cfg.chain[i][p]  sampled vectors (tokens), cfg.ref reference position    *)
(* cfg.cols, cfg.active[s][c]  columns and rows of the input catalogue      *)
(* cfg.index[s] source index, cfg.cov full covariance, cfg.lnp, cfg.tune    *)
(* A result is "raw" (holds a chain), "filled", and may be on disk; "read"  *)
(* results come from disk.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Has2(r, f) == f \in DOMAIN r
Idx(q) == 1..Len(q)
NP(c) == Len(c.names)
NS(c) == Len(c.index)
NI(c) == Len(c.chain)
Col(c, s, j) == (s - 1) * NP(c) + j
Shift(c, name) == IF name = "ra" THEN c.ref[1] ELSE IF name = "dec" THEN c.ref[2] ELSE 0
\* value of parameter j of source s at iteration i, positions absolute
Val(c, i, s, j) == c.chain[i][Col(c, s, j)] + Shift(c, c.names[j])
Pos(c, name) == {j \in 1..NP(c) : c.names[j] = name}
SampleAt(c, i, s, k) == LET P == Pos(c, c.cols[k]) IN IF P = {} THEN c.active[s][k] ELSE Val(c, i, s, CHOOSE j \in P : TRUE)
Sample(c, i) == [s \in 1..NS(c) |-> [k \in Idx(c.cols) |-> SampleAt(c, i, s, k)]]
Table(c) == [s \in 1..NS(c) |-> [j \in 1..NP(c) |-> [i \in 1..NI(c) |-> Val(c, i, s, j)]]]
Block(c, s) == [a \in 1..NP(c) |-> [b \in 1..NP(c) |-> c.cov[Col(c, s, a)][Col(c, s, b)]]]
\* python iteration number to index
It(c, it) == IF it < 0 THEN NI(c) + it + 1 ELSE it + 1
Best(c) == CHOOSE i \in 1..NI(c) : \A k \in 1..NI(c) : c.lnp[k] < c.lnp[i] \/ (c.lnp[k] = c.lnp[i] /\ i <= k)
Count(q, v) == Cardinality({i \in Idx(q) : q[i] = v})

InitState(c) == [cfg |-> c, phase |-> "raw", disk |-> FALSE]
Apply(st, ev) ==
  CASE ev.op = "fill" -> [st EXCEPT !.phase = "filled"]
    [] ev.op = "save" -> [st EXCEPT !.disk = TRUE]
    [] ev.op = "load" -> [st EXCEPT !.phase = "read"]
    [] OTHER -> st
TableVerdict(c, ev) ==
  IF Len(ev.table) # NS(c) THEN "the table does not have a row per source" ELSE
  IF ev.tindex # c.index THEN "the table does not name its sources" ELSE
  IF ev.table # Table(c) THEN "the table does not hold each source's own chain" ELSE ""
FillVerdict(c, ev) ==
  IF TableVerdict(c, ev) # "" THEN TableVerdict(c, ev) ELSE
  IF ev.final # Sample(c, NI(c)) THEN "the final catalogue is not the last sample" ELSE
  IF ev.step /\ (Len(ev.blocks) # NS(c) \/ \E s \in Idx(ev.blocks) : ev.blocks[s] # Block(c, s)) THEN "covariance blocks are not those of the sources" ELSE
  IF ~ev.step /\ ev.blocks # <<>> THEN "covariance blocks without a covariance" ELSE
  IF ev.stats /\ (ev.ntune # Count(c.tune, 1) \/ ev.nsample # Count(c.tune, 0)) THEN "numbers of tuning and sampling iterations" ELSE
  IF ~ev.kept THEN "filling changed the chain or the input catalogue" ELSE ""
LoadVerdict(c, ev) ==
  LET after == [n \in {ev.after[k][1] : k \in Idx(ev.after)} |-> {ev.after[k][2] : k \in {x \in Idx(ev.after) : ev.after[x][1] = n}}]
      lost == {k \in Idx(ev.before) : ev.before[k][1] \notin DOMAIN after}
      changed == {k \in Idx(ev.before) \ lost : ev.before[k][2] \notin after[ev.before[k][1]]}
  IN IF lost # {} THEN "not on disk: " \o ev.before[CHOOSE k \in lost : TRUE][1] ELSE
     IF changed # {} THEN "changed on disk: " \o ev.before[CHOOSE k \in changed : TRUE][1] ELSE
     IF TableVerdict(c, ev) # "" THEN TableVerdict(c, ev) \o " after reading" ELSE
     IF ev.region # ev.wantregion THEN "the region is not rebuilt" ELSE
     IF ev.bands \o ev.shapes # c.names THEN "bands and shape names are not rebuilt" ELSE ""
Verdict(st, ev) ==
  LET c == st.cfg IN
  IF Has2(ev, "exc") THEN "operation raises " \o ev.exc ELSE
  CASE ev.op = "fill" -> FillVerdict(c, ev)
    [] ev.op = "table" -> TableVerdict(c, ev)
    [] ev.op = "save" -> IF ev.skipped # <<>> THEN "not written: " \o ev.skipped[1] ELSE ""
    [] ev.op = "load" -> IF ~st.disk THEN "trace: nothing on disk" ELSE LoadVerdict(c, ev)
    [] ev.op = "sample" -> IF st.phase = "raw" THEN "trace: not filled" ELSE
                           IF ev.out # Sample(c, It(c, ev.it)) THEN "the sample catalogue is not that iteration" ELSE ""
    [] ev.op = "best" -> IF st.phase = "raw" THEN "trace: not filled" ELSE
                         IF ev.structured /\ ev.out # Sample(c, Best(c)) THEN "the most probable catalogue is not the most probable iteration" ELSE
                         IF ~ev.structured /\ ev.out # <<c.chain[Best(c)]>> THEN "the most probable vector is not the most probable iteration" ELSE ""
    [] ev.op = "blocks" -> IF Len(ev.out) # NS(c) \/ \E s \in Idx(ev.out) : ev.out[s] # Block(c, s) THEN "covariance blocks are not those of the sources" ELSE ""
    \* a sampler's or optimiser's run: positions are numbered in the order of their first evaluation
    [] ev.op = "run" -> IF Len(ev.rows) # ev.n THEN "the chain does not have a row per iteration" ELSE
                        IF \E i \in Idx(ev.rows) : ev.rows[i] = 0 THEN "a row of the chain is not a scene position the sampler visited" ELSE
                        IF \E i \in Idx(ev.lnp) : ev.lnp[i] # ev.rows[i] THEN "the recorded probability is not that of the row" ELSE
                        IF ~ev.inside THEN "the chain leaves the bounds" ELSE
                        IF ~ev.start THEN "the starting position is not recorded" ELSE
                        IF ev.better < 0 THEN "the optimum is worse than the start" ELSE ""
    [] OTHER -> "trace: unknown event"
=============================================================================
