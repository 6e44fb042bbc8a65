---------------------------- MODULE MCResiduals ----------------------------
(* Every order of filling dictionaries from three patches that share       *)
(* images and pixels; the content is always that of the last fill, and     *)
(* padding never appears.  The implementation fills pixel by pixel.         *)
EXTENDS Residuals, Json
CONSTANTS Depth
VARIABLES dicts, pix, hist
P(x, y, v) == <<x, y, v, v + 1, v + 2>>
Cfg == [exps |-> <<[nx |-> 2, ny |-> 3], [nx |-> 3, ny |-> 2]>>,
        patches |-> << <<[e |-> 1, px |-> <<P(0,0,10), P(1,2,20), P(-1,-1,0)>>], [e |-> 2, px |-> <<P(2,1,30), P(-1,-1,0)>>]>>,
                       <<[e |-> 1, px |-> <<P(1,2,40), P(0,1,50)>>]>>,
                       <<[e |-> 2, px |-> <<P(-1,-1,0), P(2,1,60), P(0,0,70)>>]>> >>]
Names == {"A", "B"}
Init == dicts = [k \in Names |-> Empty] /\ pix = [k \in Names |-> [q \in {} |-> 0]] /\ hist = <<>>
\* pixel by pixel: q = <<exposure, x, y>>
RECURSIVE PutAll(_, _, _)
PutAll(f, px, z) == IF px = <<>> THEN f ELSE
   LET h == px[1]  g == IF h[1] < 0 \/ h[2] < 0 THEN f
                        ELSE [q \in DOMAIN f \cup {<<z[1], h[1], h[2]>>} |-> IF q = <<z[1], h[1], h[2]>> THEN h[Kind[z[2]]] ELSE f[q]]
   IN PutAll(g, Tail(px), z)
RECURSIVE PutPatch(_, _, _)
PutPatch(f, xs, kind) == IF xs = <<>> THEN f ELSE PutPatch(PutAll(f, xs[1].px, <<xs[1].e, kind>>), Tail(xs), kind)
Do(k, p, kind) == /\ dicts' = [dicts EXCEPT ![k] = Fill(Cfg, @, p, kind)]
                  /\ pix' = [pix EXCEPT ![k] = PutPatch(@, Cfg.patches[p], kind)]
                  /\ hist' = Append(hist, [dict |-> k, p |-> p, kind |-> kind])
Next == Len(hist) < Depth /\ \E k \in Names, p \in 1..3, kind \in {"data", "residual"} : Do(k, p, kind)
Same == \A k \in Names : pix[k] = [q \in UNION {{<<e, z[1], z[2]>> : z \in DOMAIN dicts[k][e]} : e \in DOMAIN dicts[k]} |-> dicts[k][q[1]][<<q[2], q[3]>>]]
LastFill == \A k \in Names : \A e \in DOMAIN dicts[k] : \A q \in DOMAIN dicts[k][e] :
   LET F == {i \in Idx(hist) : hist[i].dict = k /\ \E j \in Idx(Cfg.patches[hist[i].p]) : Cfg.patches[hist[i].p][j].e = e /\ q \in Where(Cfg.patches[hist[i].p][j])}
       l == CHOOSE i \in F : \A m \in F : m <= i
       x == CHOOSE x \in Ran(Cfg.patches[hist[l].p]) : x.e = e
   IN F # {} /\ dicts[k][e][q] = Stamp(x, hist[l].kind)[q]
NoPadding == \A k \in Names : \A e \in DOMAIN dicts[k] : \A q \in DOMAIN dicts[k][e] : q[1] >= 0 /\ q[2] >= 0
View == <<dicts, IF hist = <<>> THEN 0 ELSE hist[Len(hist)], Len(hist)>>
Emit == PrintT("EDGE " \o ToJson(hist'))
=============================================================================
