----------------------------- MODULE Residuals -----------------------------
(***************************************************************************)
(* C11: pixel data of patches on disk, and images reassembled from them.    *)
(* cfg.exps[k] = [nx, ny, meta]  size of image k (and its header number)    *)
(* cfg.patches[p] = sequence of [e, band, bits, px]: the exposures of patch *)
(*   p as packed, px[n] = <<x, y, data, ierr, residual>> (tokens; negative  *)
(*   coordinates are padding; Blank a value that is not a number)           *)
(* The state is the set of image dictionaries: dictionary name -> image ->  *)
(* position -> value.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Has2(r, f) == f \in DOMAIN r
Idx(q) == 1..Len(q)
Ran(q) == {q[i] : i \in Idx(q)}
Abs(a) == IF a < 0 THEN 0 - a ELSE a
Blank == 1999999999
Kind == [data |-> 3, ierr |-> 4, residual |-> 5]
Good(px) == {n \in Idx(px) : px[n][1] >= 0 /\ px[n][2] >= 0}
Where(x) == {<<x.px[n][1], x.px[n][2]>> : n \in Good(x.px)}
\* position -> value of one exposure of one patch
Stamp(x, kind) == [q \in Where(x) |-> x.px[CHOOSE n \in Good(x.px) : x.px[n][1] = q[1] /\ x.px[n][2] = q[2]][Kind[kind]]]
Over(f, g) == [q \in DOMAIN f \cup DOMAIN g |-> IF q \in DOMAIN g THEN g[q] ELSE f[q]]
Empty == [q \in {} |-> 0]
Cells(f) == {<<q[1], q[2], f[q]>> : q \in {q \in DOMAIN f : f[q] # Blank}}
\* image dictionaries: filling adds the exposures of a patch
Fill(c, d, p, kind) ==
  LET E == {c.patches[p][j].e : j \in Idx(c.patches[p])}
      X(e) == c.patches[p][CHOOSE j \in Idx(c.patches[p]) : c.patches[p][j].e = e]
  IN [e \in DOMAIN d \cup E |-> IF e \in E THEN Over(IF e \in DOMAIN d THEN d[e] ELSE Empty, Stamp(X(e), kind)) ELSE d[e]]
Dict(st, k) == IF k # "" /\ k \in DOMAIN st.dicts THEN st.dicts[k] ELSE Empty
InitState(c) == [cfg |-> c, dicts |-> Empty]
Apply(st, ev) ==
  IF ev.op = "fill" /\ ev.dict # "" THEN
     [st EXCEPT !.dicts = [k \in DOMAIN @ \cup {ev.dict} |-> IF k = ev.dict THEN Fill(st.cfg, Dict(st, k), ev.p, ev.kind) ELSE @[k]]]
  ELSE st

StoredVerdict(c, ev) ==
  LET P == c.patches[ev.p] IN
  IF [j \in Idx(ev.exps) |-> ev.exps[j].e] # [j \in Idx(P) |-> P[j].e] THEN "the exposures on disk are not those of the patch" ELSE
  IF [j \in Idx(ev.exps) |-> ev.exps[j].band] # [j \in Idx(P) |-> P[j].band] THEN "the bands on disk are not those of the exposures" ELSE
  IF \E j \in Idx(P) : ev.exps[j].px # P[j].px THEN "pixel data on disk are not those packed" ELSE
  IF \E j \in Idx(P) : ev.exps[j].bits # P[j].bits THEN "astrometry on disk is not that packed" ELSE
  IF ev.ref # ev.wantref THEN "the reference coordinates on disk are not those of the patch" ELSE ""
\* a rectangular cut-out: corners in half pixels
BoxVerdict(f, must, ev) ==
  LET xs == {q[1] : q \in DOMAIN f}  ys == {q[2] : q \in DOMAIN f}
      Min(S) == CHOOSE a \in S : \A b \in S : a <= b
      Max(S) == CHOOSE a \in S : \A b \in S : a >= b
  IN IF ev.lo # <<2 * Min(xs) - 1, 2 * Min(ys) - 1>> \/ ev.hi # <<2 * Max(xs) + 1, 2 * Max(ys) + 1>> THEN "corners of the cut-out" ELSE
     IF ev.shape # <<Max(xs) - Min(xs) + 1, Max(ys) - Min(ys) + 1>> THEN "size of the cut-out" ELSE
     IF ~(Ran(ev.cells) \subseteq Cells(f)) \/ ~(must \subseteq Ran(ev.cells)) THEN "pixels of the cut-out" ELSE ""
FillVerdict(st, ev) ==
  LET c == st.cfg  d == Fill(c, Dict(st, ev.dict), ev.p, ev.kind) IN
  IF {ev.images[i].e : i \in Idx(ev.images)} # DOMAIN d \/ Len(ev.images) # Cardinality(DOMAIN d) THEN "the images filled are not those of the exposures" ELSE
  IF \E i \in Idx(ev.images) : LET m == ev.images[i] IN Ran(m.cells) # Cells(d[m.e]) THEN "a filled image has a value at another pixel" ELSE
  IF \E i \in Idx(ev.images) : LET m == ev.images[i] IN m.shape # ev.want[m.e] THEN "a filled image has another shape" ELSE
  IF \E i \in Idx(ev.images) : LET m == ev.images[i] IN m.head # 0 /\ m.head # m.e THEN "an image has another image's header" ELSE
  IF ev.headers /\ \E i \in Idx(ev.images) : ev.images[i].head = 0 THEN "an image has no header" ELSE
  IF ~ev.returned THEN "the supplied images are not the ones filled" ELSE ""
\* values some patch has at a position of image e
Vals(c, e, q, kind) == {Stamp(c.patches[pj[1]][pj[2]], kind)[q] :
    pj \in {pj \in {<<p, j>> : p \in Idx(c.patches), j \in 1..20} :
       pj[2] <= Len(c.patches[pj[1]]) /\ c.patches[pj[1]][pj[2]].e = e /\ q \in Where(c.patches[pj[1]][pj[2]])}}
Cover(c, e) == UNION {Where(c.patches[pj[1]][pj[2]]) : pj \in {pj \in {<<p, j>> : p \in Idx(c.patches), j \in 1..20} :
       pj[2] <= Len(c.patches[pj[1]]) /\ c.patches[pj[1]][pj[2]].e = e}}
ImagesVerdict(c, ev) ==
  LET E == UNION {{c.patches[p][j].e : j \in Idx(c.patches[p])} : p \in Idx(c.patches)}
      types == {"data", "delta"} \cup (IF ev.model THEN {"model"} ELSE {}) \cup (IF ev.chi THEN {"chi"} ELSE {})
      \* the exposure of a file is that of its data
      of(e, t) == {i \in Idx(ev.files) : ev.files[i].e = e /\ ev.files[i].type = t}
      file(e, t) == ev.files[CHOOSE i \in of(e, t) : TRUE]
      at(e, t) == LET f == file(e, t) IN [q \in {<<x[1], x[2]>> : x \in Ran(f.cells)} |-> (CHOOSE x \in Ran(f.cells) : x[1] = q[1] /\ x[2] = q[2])[3]]
  IN
  IF \E e \in E, t \in types : Cardinality(of(e, t)) # 1 THEN "there is not one file per exposure and type" ELSE
  IF Len(ev.files) # Cardinality(E) * Cardinality(types) THEN "files of nothing" ELSE
  IF \E i \in Idx(ev.files) : ~ev.files[i].named THEN "a file has another exposure's name" ELSE
  IF \E i \in Idx(ev.files) : ev.files[i].imtype # ev.files[i].type THEN "a file is labelled as another type" ELSE
  IF \E i \in Idx(ev.files) : ev.files[i].shape # ev.want[ev.files[i].e] THEN "a written image has another shape or orientation" ELSE
  IF \E i \in Idx(ev.files) : ev.files[i].head # 0 /\ ev.files[i].head # ev.files[i].e THEN "a written image has another image's header" ELSE
  IF ev.headers /\ \E i \in Idx(ev.files) : ev.files[i].head = 0 THEN "a written image lost its header" ELSE
  IF \E e \in E : LET D == at(e, "data") IN \/ DOMAIN D # {q \in Cover(c, e) : Vals(c, e, q, "data") # {Blank}}
                                            \/ \E q \in DOMAIN D : D[q] \notin Vals(c, e, q, "data") THEN "written data are not those of the pixels" ELSE
  IF \E e \in E : LET D == at(e, "delta") IN \/ DOMAIN D # {q \in Cover(c, e) : Vals(c, e, q, "residual") # {Blank}}
                                             \/ \E q \in DOMAIN D : D[q] \notin Vals(c, e, q, "residual") THEN "written residuals are not those of the pixels" ELSE
  IF ev.model /\ \E e \in E : LET M == at(e, "model")  D == at(e, "data")  R == at(e, "delta") IN
        \/ DOMAIN M # DOMAIN D \cap DOMAIN R
        \/ \E q \in DOMAIN M : Abs(M[q] - (D[q] - R[q])) > 1 THEN "the written model is not data minus residual" ELSE
  IF ev.chi /\ \E e \in E : LET M == at(e, "chi")  R == at(e, "delta") IN
        \/ DOMAIN M # DOMAIN R
        \/ \E q \in DOMAIN M : \A w \in Vals(c, e, q, "ierr") : Abs(M[q] - R[q] * w) > 2 + Abs(M[q]) \div 400000 + w THEN "the written chi is not residual times weight" ELSE ""
Verdict(st, ev) ==
  LET c == st.cfg IN
  IF Has2(ev, "exc") THEN "operation raises " \o ev.exc ELSE
  CASE ev.op = "stored" -> StoredVerdict(c, ev)
    [] ev.op = "cut" -> LET f == Stamp(c.patches[ev.p][ev.j], ev.kind) IN BoxVerdict(f, Cells(f), ev)
    \* what is displayed: data, model, residual
    [] ev.op = "show" -> LET x == c.patches[ev.p][ev.j]
                             D == Stamp(x, "data")  R == Stamp(x, "residual")  W == Stamp(x, "ierr")
                             M == [q \in DOMAIN D |-> D[q] - R[q]]
                             Z == [q \in DOMAIN R |-> IF W[q] = 0 THEN Blank ELSE R[q]]   \* may be left out where there is no weight
                             b1 == BoxVerdict(D, Cells(D), ev.panels[1])
                             b2 == BoxVerdict(R, Cells(Z), ev.panels[2])
                             b3 == BoxVerdict(M, Cells(M), ev.panels[3])
                         IN IF b1 # "" THEN b1 \o " (data shown)" ELSE IF b2 # "" THEN b2 \o " (residual shown)" ELSE IF b3 # "" THEN b3 \o " (model shown)" ELSE ""
    [] ev.op = "fill" -> FillVerdict(st, ev)
    [] ev.op = "images" -> ImagesVerdict(c, ev)
    \* positions in 1/1000 pixel
    [] ev.op = "pix" -> IF \E i \in Idx(ev.want) : \E a \in 1..2 : Abs(ev.want[i][a] - ev.got[i][a]) > 60 THEN "a sky position maps to another pixel" ELSE
                        IF Len(ev.got) # Len(ev.want) THEN "one pixel position per sky position" ELSE ""
    [] OTHER -> "trace: unknown event"
=============================================================================
