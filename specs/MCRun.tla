------------------------------- MODULE MCRun -------------------------------
(* All orders and memberships of patches.  The catalogues are filled patch *)
(* by patch, overwriting; the result is that of the last patch of each     *)
(* source, and the logs agree with the memberships.                        *)
EXTENDS Run, Json
CONSTANTS N, IDs, Depth
VARIABLES hist, cat, slog, val
vars == <<hist, cat, slog, val>>
S == 1..N
Mem == {q \in UNION {[1..k -> S] : k \in 1..N} : \A a, b \in DOMAIN q : a < b => q[a] < q[b]}
Init == hist = <<>> /\ cat = [s \in S |-> -1] /\ slog = [s \in S |-> <<>>] /\ val = [s \in S |-> <<0, 0>>]
\* two bands; a patch has both or only the second
Do(id, m, b) ==
  /\ hist' = Append(hist, [id |-> id, src |-> m, both |-> b])
  /\ cat' = [s \in S |-> IF s \in Ran(m) THEN id ELSE cat[s]]
  /\ slog' = [s \in S |-> IF s \in Ran(m) THEN Append(slog[s], id) ELSE slog[s]]
  /\ val' = [s \in S |-> IF s \in Ran(m) THEN <<IF b THEN id + 1 ELSE val[s][1], id + 1>> ELSE val[s]]
Next == Len(hist) < Depth /\ \E id \in IDs \ {hist[i].id : i \in Idx(hist)}, m \in Mem, b \in BOOLEAN : Do(id, m, b)
Cfg == [n |-> N, bands |-> <<"x", "y">>, shapes |-> <<>>, init |-> [s \in S |-> <<0, 0>>],
        patches |-> [i \in Idx(hist) |-> [id |-> hist[i].id, src |-> hist[i].src, names |-> IF hist[i].both THEN <<"x", "y">> ELSE <<"y">>,
                     table |-> [k \in Idx(hist[i].src) |-> [j \in 1..(IF hist[i].both THEN 2 ELSE 1) |-> <<0, hist[i].id + 1>>]]]]]
Log == [i \in Idx(hist) |-> i]
Last == \A s \in S : LET I == In(Cfg, Log, s) IN cat[s] = IF I = {} THEN -1 ELSE hist[Max(I)].id
Logs == \A s \in S : slog[s] = LogOf(Cfg, Log, s) /\ Len(slog[s]) = Cardinality(In(Cfg, Log, s))
Values == Final(Cfg, Log) = val
Emit == PrintT("EDGE " \o ToJson(hist'))
=============================================================================
