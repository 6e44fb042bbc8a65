------------------------------- MODULE MCPack -------------------------------
(* The packing loop as a state machine: every list of up to NE exposures   *)
(* with band and number of selected pixels, every requested band order,    *)
(* every block size; the loop appends one exposure per step.               *)
EXTENDS Geo, TLC, Json, SequencesExt
CONSTANTS NE, NBands, Sizes, Blocks, MinBands
VARIABLES exps, bands, blk, queue, out, bandN, start, num, pix, pc
vars == <<exps, bands, blk, queue, out, bandN, start, num, pix, pc>>
B == 1..NBands
Perms == {q \in UNION {[1..n -> B] : n \in MinBands..NBands} : NoDup(q)}
Lists == UNION {[1..n -> B \X Sizes] : n \in 1..NE}
Init == /\ exps \in Lists /\ bands \in Perms /\ blk \in Blocks
        /\ queue = <<>> /\ out = <<>> /\ bandN = <<>> /\ start = <<>> /\ num = <<>> /\ pix = <<>> /\ pc = "find"
Padded(n) == IF blk = 0 THEN n ELSE ((n + blk - 1) \div blk) * blk
\* exposures in requested band order, file order within a band, those without a selected pixel dropped
Find == /\ pc = "find"
        /\ queue' = FlattenSeq([k \in 1..Len(bands) |-> SelectSeq([e \in 1..Len(exps) |-> e], LAMBDA e : exps[e][1] = bands[k] /\ exps[e][2] > 0)])
        /\ pc' = "pack" /\ UNCHANGED <<exps, bands, blk, out, bandN, start, num, pix>>
Pack == /\ pc = "pack" /\ queue # <<>>
        /\ LET e == Head(queue)
               n == Padded(exps[e][2])
               new == out = <<>> \/ exps[out[Len(out)]][1] # exps[e][1]
           IN /\ out' = Append(out, e) /\ start' = Append(start, Len(pix)) /\ num' = Append(num, n)
              /\ bandN' = IF new THEN Append(bandN, 1) ELSE [bandN EXCEPT ![Len(bandN)] = @ + 1]
              /\ pix' = pix \o [k \in 1..n |-> IF k <= exps[e][2] THEN <<e, k>> ELSE <<0, 0>>]
        /\ queue' = Tail(queue) /\ UNCHANGED <<exps, bands, blk, pc>>
Done == pc = "pack" /\ queue = <<>> /\ pc' = "done" /\ UNCHANGED <<exps, bands, blk, queue, out, bandN, start, num, pix>>
Next == Find \/ Pack \/ Done
Emit == pc' = "done" => PrintT("EDGE " \o ToJson([exps |-> exps, bands |-> bands, blk |-> blk]))
RECURSIVE CumTo(_, _)
CumTo(q, k) == IF k <= 0 THEN 0 ELSE q[k] + CumTo(q, k - 1)
Partition == /\ \A k \in 1..Len(num) : start[k] = CumTo(num, k - 1)
             /\ CumTo(num, Len(num)) = Len(pix)
             /\ CumTo(bandN, Len(bandN)) = Len(out)
Lossless == pc = "done" =>
   /\ {pix[i] : i \in 1..Len(pix)} \ {<<0, 0>>} =
        UNION {{<<e, k>> : k \in 1..exps[e][2]} : e \in {e \in 1..Len(exps) : \E b \in 1..Len(bands) : bands[b] = exps[e][1]}}
   /\ \A i, j \in 1..Len(pix) : i # j /\ pix[i] # <<0, 0>> => pix[i] # pix[j]
   /\ \A i, j \in 1..Len(out) : i < j => \E a, b \in 1..Len(bands) : a <= b /\ bands[a] = exps[out[i]][1] /\ bands[b] = exps[out[j]][1]
=============================================================================
