------------------------------ MODULE Summary ------------------------------
(***************************************************************************)
(* C16: what is derived from a sample catalogue.  A catalogue is a sequence *)
(* of rows [id, k, s]: identity, a scalar column and, for every sample      *)
(* column, the chain of the source (integers, multiples of 12).             *)
(*  percentiles: linear interpolation between order statistics, times 100   *)
(*  groups:      fluxes summed and positions averaged sample by sample      *)
(*  appending:   the rows of each extension, file after file                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Sorted(v) == SortSeq(v, LAMBDA a, b : a < b)
Percentile100(v, p) ==
  LET s == Sorted(v)
      h == (Len(v) - 1) * p
      k == h \div 100
      f == h % 100
  IN IF k + 2 > Len(s) THEN 100 * s[Len(s)] ELSE s[k + 1] * (100 - f) + s[k + 2] * f
PctRow(row, ps) == [c \in 1..Len(row.s) |-> [j \in 1..Len(ps) |-> Percentile100(row.s[c], ps[j])]]
RowOf(cat, id) == cat[CHOOSE i \in 1..Len(cat) : cat[i].id = id]
SumOf(cat, ids, c, k) == FoldLeft(LAMBDA acc, id : acc + RowOf(cat, id).s[c][k], 0, ids)
\* group g: flux columns 1..nb summed, position columns averaged
GroupChain(cat, ids, c, nb) == [k \in 1..Len(cat[1].s[1]) |-> IF c <= nb THEN SumOf(cat, ids, c, k) ELSE SumOf(cat, ids, c, k) \div Len(ids)]
Concat(files, e) == FoldLeft(LAMBDA acc, f : acc \o f[e], <<>>, files)
Near1(a, b) == a - b \in -1..1
SVerdict(ev) ==
  IF "exc" \in DOMAIN ev THEN ev.op \o " raises " \o ev.exc
  ELSE IF ev.op = "pct" THEN
    IF Len(ev.out) # Len(ev.cat) THEN "percentiles: number of rows" ELSE
    IF \E i \in 1..Len(ev.cat) : ev.out[i].id # ev.cat[i].id \/ ev.out[i].k # ev.cat[i].k THEN "percentiles: other columns changed" ELSE
    IF \E i \in 1..Len(ev.cat) : LET w == PctRow(ev.cat[i], ev.ps) IN
         Len(ev.out[i].s) # Len(w) \/ \E c \in 1..Len(w) : Len(ev.out[i].s[c]) # Len(ev.ps) \/ \E j \in 1..Len(ev.ps) : ~Near1(ev.out[i].s[c][j], w[c][j])
    THEN "percentiles are not those of the source's own chain" ELSE
    IF ev.cols # ev.want THEN "percentiles: columns named in the header" ELSE
    IF ev.pcts # ev.ps THEN "percentiles named in the header" ELSE ""
  ELSE IF ev.op = "combine" THEN
    IF Len(ev.out) # Len(ev.groups) THEN "groups: number of rows" ELSE
    IF \E g \in 1..Len(ev.groups) : ev.out[g].id # ev.groups[g].name THEN "groups: name" ELSE
    IF \E g \in 1..Len(ev.groups) : \E c \in 1..(ev.nb + 2) : ev.out[g].s[c] # GroupChain(ev.cat, ev.groups[g].ids, c, ev.nb)
    THEN "a group is not the combination of its members' chains" ELSE
    IF \E g \in 1..Len(ev.groups) : ev.members[g] # ev.groups[g].ids THEN "groups: members named in the header" ELSE ""
  ELSE IF ev.op = "append" THEN
    IF \E e \in 1..4 : ev.out[e] # Concat(ev.files, e) THEN "appended catalogue does not hold the rows of every file in order" ELSE ""
  ELSE "trace: unknown event"
=============================================================================
