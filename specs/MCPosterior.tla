---------------------------- MODULE MCPosterior ----------------------------
(* All histories of mutations and queries: every state of the abstract     *)
(* cache with every suffix of K operations (K-switch coverage), because    *)
(* the implementation's cache may remember more than the specification.    *)
EXTENDS Posterior, Json
CONSTANTS Depth, K, NV, NP
VARIABLES st, hist, impl
\* impl: the caching algorithm the code is meant to follow: key of the cached evaluation
vars == <<st, hist, impl>>
Cfg == [arr |-> <<1, 2>>, prior |-> 1, samp |-> TRUE, ndof |-> 1, w |-> <<1, 2>>, d |-> <<3, 5>>, j |-> <<2, 3>>, e |-> <<1, 2>>, c |-> <<0, 7, -4>>,
        vals |-> <<<<1, 2>>, <<3, -1>>, <<0, 4>>>>]
Init == st = InitState(Cfg) /\ hist = <<>> /\ impl = <<>>
Ops == {[op |-> "set", a |-> a, v |-> v, evals |-> st.evals] : a \in 1..2, v \in 1..NV}
       \cup {[op |-> "query", a |-> a, q |-> q, evals |-> IF impl = Key(st, a) THEN st.evals ELSE st.evals + 1] :
               a \in 1..2, q \in {"lnprob", "grad", "both", "nll", "nllng"}}
       \cup {[op |-> "prior", p |-> p, evals |-> st.evals] : p \in 1..NP}
       \cup {[op |-> "mode", m |-> m, evals |-> st.evals] : m \in {TRUE, FALSE}}
       \cup {[op |-> "resid", v |-> v, evals |-> st.evals] : v \in 1..NV}
Next == /\ Len(hist) < Depth
        /\ \E ev \in Ops : /\ st' = Apply(st, ev) /\ hist' = Append(hist, ev)
                           /\ impl' = IF ev.op = "query" THEN Key(st, ev.a) ELSE impl
Suffix == SubSeq(hist, Max(1, Len(hist) - K + 1), Len(hist))
View == <<[st EXCEPT !.cfg = 0, !.evals = 0], impl, [k \in 1..Len(Suffix) |-> [Suffix[k] EXCEPT !.evals = 0]], Min(Len(hist), K)>>
Strip(ev) == [ev EXCEPT !.evals = 0]
Emit == PrintT("EDGE " \o ToJson([k \in 1..Len(hist') |-> Strip(hist'[k])]))
\* a cached answer always belongs to the parameters, prior and mode of the query
Coherent == st.last = <<>> \/ st.last = impl
=============================================================================
