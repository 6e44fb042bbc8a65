----------------------------- MODULE MCSubtract -----------------------------
(***************************************************************************)
(* C08: the algorithm that prepares a patch: scenes of at most Max sources  *)
(* are sent one after the other, each evaluated and then swapped away, so   *)
(* that the residual becomes the data; the active scene stays loaded.       *)
(* Sources are numbered; data[s] counts how often s has been subtracted.    *)
(* After preparation, evaluations, design matrices and renderings may       *)
(* follow in any order; they load other scenes and must put the active one  *)
(* back.  The histories it emits are replayed on real patches.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS MaxBig, MaxFix, MaxAct, MaxBatch, MaxOps
VARIABLES cfg, scenes, i, data, resid, loaded, phase, ops
vars == <<cfg, scenes, i, data, resid, loaded, phase, ops>>
Big(c) == [k \in 1..c.big |-> k]
Fix(c) == [k \in 1..c.fix |-> c.big + k]
Act(c) == [k \in 1..c.act |-> c.big + c.fix + k]
All(c) == 1..(c.big + c.fix + c.act)
RECURSIVE Blocks(_, _)
Blocks(q, m) == IF q = <<>> THEN <<>> ELSE IF Len(q) <= m THEN <<q>> ELSE <<SubSeq(q, 1, m)>> \o Blocks(SubSeq(q, m + 1, Len(q)), m)
Subtract(d, q) == [s \in DOMAIN d |-> d[s] + Cardinality({k \in 1..Len(q) : q[k] = s})]
Init == /\ cfg \in [big : 0..MaxBig, fix : 0..MaxFix, act : 1..MaxAct, max : 1..MaxBatch]
        /\ scenes = Blocks(Big(cfg), cfg.max) \o Blocks(Fix(cfg), cfg.max) \o <<Act(cfg)>>
        /\ i = 1 /\ data = [s \in All(cfg) |-> 0] /\ resid = data /\ loaded = scenes[1] /\ phase = "sent" /\ ops = <<>>
Evaluate == /\ phase = "sent" /\ i < Len(scenes)
            /\ resid' = Subtract(data, loaded) /\ phase' = "done" /\ UNCHANGED <<cfg, scenes, i, data, loaded, ops>>
Swap == /\ phase = "done"
        /\ data' = resid /\ resid' = data /\ i' = i + 1 /\ loaded' = scenes[i + 1] /\ phase' = "sent" /\ UNCHANGED <<cfg, scenes, ops>>
Ready == phase = "sent" /\ i = Len(scenes)
Op(o) == /\ Ready /\ Len(ops) < MaxOps /\ ops' = Append(ops, o)
         /\ resid' = Subtract(data, IF o = "eval" THEN loaded ELSE <<Last(Act(cfg))>>)
         /\ UNCHANGED <<cfg, scenes, i, data, loaded, phase>>
Next == Evaluate \/ Swap \/ \E o \in {"eval", "design", "fit", "render"} : Op(o)
\* every fixed and large source exactly once, the active ones never, the active scene loaded
Prepared == Ready => /\ \A k \in 1..Len(Big(cfg)) : data[Big(cfg)[k]] = 1
                     /\ \A k \in 1..Len(Fix(cfg)) : data[Fix(cfg)[k]] = 1
                     /\ \A k \in 1..Len(Act(cfg)) : data[Act(cfg)[k]] = 0
                     /\ loaded = Act(cfg)
Never == \A s \in DOMAIN data : data[s] \in {0, 1}
Limit == \A k \in 1..Len(scenes) - 1 : Len(scenes[k]) \in 1..cfg.max
Emit == IF Len(ops') = MaxOps /\ Len(ops) < MaxOps THEN PrintT("EDGE " \o ToJson([c |-> cfg, ops |-> ops'])) ELSE TRUE
=============================================================================
