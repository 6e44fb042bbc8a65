------------------------------ MODULE MCChain ------------------------------
(* Every small shape of chain and every order of filling, saving, reading   *)
(* and querying; the column arithmetic is a bijection, and what is read     *)
(* back is what was filled in.                                              *)
EXTENDS Chain, Json
CONSTANTS MaxS, MaxB, MaxI, Depth
VARIABLES st, h, mem, file
vars == <<st, h, mem, file>>
Shapes == <<"ra", "dec">>
Cfg(ns, nb, ni) ==
  LET names == [j \in 1..nb |-> "B" \o ToString(j)] \o Shapes IN
  [names |-> names, ref |-> <<100000, 200000>>, index |-> [s \in 1..ns |-> 10 - s],
   chain |-> [i \in 1..ni |-> [p \in 1..ns * (nb + 2) |-> 1000 * i + p]],
   cols |-> <<"id">> \o names, active |-> [s \in 1..ns |-> [k \in 1..nb + 3 |-> 0 - s]]]
Init == /\ \E ns \in 1..MaxS, nb \in 1..MaxB, ni \in 1..MaxI : st = InitState(Cfg(ns, nb, ni))
        /\ h = <<>> /\ mem = <<>> /\ file = <<>>
c == st.cfg
Op(op) == [op |-> op]
Next ==
  /\ Len(h) < Depth
  /\ \/ /\ st.phase = "raw" /\ \E stp \in BOOLEAN : h' = Append(h, [op |-> "fill", step |-> stp])
        /\ st' = Apply(st, Op("fill")) /\ mem' = Table(c) /\ UNCHANGED file
     \/ /\ st.phase # "raw" /\ \E it \in (0 - NI(c))..(NI(c) - 1) : h' = Append(h, [op |-> "sample", it |-> it]) /\ UNCHANGED <<st, mem, file>>
     \/ /\ st.phase # "raw" /\ \E s \in BOOLEAN : h' = Append(h, [op |-> "best", structured |-> s]) /\ UNCHANGED <<st, mem, file>>
     \/ /\ st.phase # "raw" /\ h' = Append(h, Op("save")) /\ st' = Apply(st, Op("save")) /\ file' = mem /\ UNCHANGED mem
     \/ /\ st.disk /\ h' = Append(h, Op("load")) /\ st' = Apply(st, Op("load")) /\ mem' = file /\ UNCHANGED file
Injective == \A s1, s2 \in 1..NS(c), j1, j2 \in 1..NP(c) : Col(c, s1, j1) = Col(c, s2, j2) => s1 = s2 /\ j1 = j2
Onto == {Col(c, s, j) : s \in 1..NS(c), j \in 1..NP(c)} = 1..Len(c.chain[1])
Faithful == st.phase # "raw" => mem = Table(c)
KeepsOther == \A i \in 1..NI(c), s \in 1..NS(c) : Sample(c, i)[s][1] = c.active[s][1] /\ \A k \in 2..Len(c.cols) : Sample(c, i)[s][k] # c.active[s][k]
Emit == PrintT("EDGE " \o ToJson([ns |-> NS(c), nb |-> NP(c) - 2, ni |-> NI(c), ops |-> h']))
=============================================================================
