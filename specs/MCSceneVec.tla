---------------------------- MODULE MCSceneVec ----------------------------
(* Histories of set, fix, re-centre, restore and reload on two scenes.  The *)
(* implementation keeps one array of cells per scene and walks it with a    *)
(* running offset; the absolute sky position of every source is a history   *)
(* variable.  Values are symbolic: the n-th set writes 1000 n + position.   *)
EXTENDS SceneVec, Json
CONSTANTS Depth
VARIABLES st, cell, sky, hist
Src(kind, bands, base) == Source(kind, bands, [n \in Ran(bands \o Cols(kind)) |-> base + 512 * CHOOSE i \in Idx(bands \o Cols(kind)) : (bands \o Cols(kind))[i] = n])
S0 == << <<Src("G", <<"A", "B">>, 1024), Src("S", <<"A">>, 16384), Src("G", <<"B", "A">>, 32768)>>, <<Src("G", <<"B", "A">>, 65536)>>, <<>> >>
Cells(q) == Flat([i \in Idx(q) |-> Vec(q[i])])
Pos(q) == [i \in Idx(q) |-> <<q[i].p["ra"], q[i].p["dec"]>>]
Init == st = [cfg |-> [nmin |-> 0], sc |-> S0, ref |-> <<<<0, 0, 0>>, <<0, 0, 0>>>>] /\ cell = [k \in 1..2 |-> Cells(S0[k])]
        /\ sky = [k \in 1..2 |-> Pos(S0[k])] /\ hist = <<>>
RefOf(s, k) == LET J == {j \in 1..2 : s.ref[j][3] = k} IN IF J = {} THEN <<0, 0>> ELSE LET j == CHOOSE j \in J : TRUE IN <<s.ref[j][1], s.ref[j][2]>>
Ghost(s, k) == [i \in Idx(s.sc[k]) |-> <<s.sc[k][i].p["ra"] + RefOf(s, k)[1], s.sc[k][i].p["dec"] + RefOf(s, k)[2]>>]
\* walking the cells: offsets of the sources, writing those of active ones
Off(q, i) == FoldLeft(LAMBDA a, j : a + NPar(q[j]), 0, Ix(i - 1))
Owner(q, a) == CHOOSE i \in Idx(q) : Off(q, i) < a /\ a <= Off(q, i) + NPar(q[i])
WriteCells(cs, q, theta) == [a \in Idx(cs) |-> LET i == Owner(q, a) IN IF q[i].fix THEN cs[a] ELSE theta[Start(q, i) + a - Off(q, i)]]
AddCells(cs, q, d) == [a \in Idx(cs) |-> LET i == Owner(q, a)  n == Names(q[i])[a - Off(q, i)] IN cs[a] + (IF n = "ra" THEN d[1] ELSE IF n = "dec" THEN d[2] ELSE 0)]
Theta(n, len) == [i \in 1..len |-> 100000 * n + 512 * i]
Total(q) == FoldLeft(LAMBDA a, s : a + NPar(s), 0, Active(q))
Rec(ev) == hist' = Append(hist, ev)
Set(k) == LET ev == [op |-> "set", k |-> k, theta |-> Theta(Len(hist) + 1, Total(st.sc[k]))] IN
   st' = Apply(st, ev) /\ cell' = [cell EXCEPT ![k] = WriteCells(@, st.sc[k], ev.theta)] /\ sky' = [sky EXCEPT ![k] = Ghost(st', k)] /\ Rec([op |-> "set", k |-> k])
Fix(k, i) == LET ev == [op |-> "fix", k |-> k, i |-> i, val |-> ~st.sc[k][i].fix] IN
   i \in Idx(st.sc[k]) /\ st' = Apply(st, ev) /\ UNCHANGED <<cell, sky>> /\ Rec(ev)
ZeroC(j, k) == LET ev == [op |-> "zero", j |-> j, k |-> k, sky |-> <<>>]  z == Centre(st.sc[k]) IN
   /\ st.ref[j][3] = 0 /\ RefOf(st, k) = <<0, 0>> /\ st' = Apply(st, ev) /\ cell' = [cell EXCEPT ![k] = AddCells(@, st.sc[k], <<0 - z[1], 0 - z[2]>>)] /\ UNCHANGED sky
   /\ Rec([op |-> "zero", j |-> j, k |-> k])
UnzeroC(j) == LET k == st.ref[j][3]  ev == [op |-> "unzero", j |-> j, k |-> k]  z == st.ref[j] IN
   k # 0 /\ st' = Apply(st, ev) /\ cell' = [cell EXCEPT ![k] = AddCells(@, st.sc[k], z)] /\ UNCHANGED sky /\ Rec(ev)
\* a scene is written as a catalogue and read by the other scene (of one kind only)
Reload(k, l) == LET q == st.sc[k]
      ev == [op |-> "fromcat", k |-> l, kind |-> "G", bands |-> <<"A", "B">>, extra |-> <<>>, rows |-> [i \in Idx(q) |-> q[i].p]] IN
   /\ k # l /\ \A i \in Idx(q) : q[i].kind = "G"
   /\ st' = Apply(st, ev) /\ cell' = [cell EXCEPT ![l] = Cells(st'.sc[l])] /\ sky' = [sky EXCEPT ![l] = Ghost(st', l)] /\ Rec([op |-> "reload", k |-> k, l |-> l])
Next == Len(hist) < Depth /\ \/ \E k \in 1..2 : Set(k)
                             \/ \E k \in 1..2, i \in 1..3 : Fix(k, i)
                             \/ \E j \in 1..2, k \in 1..2 : ZeroC(j, k)
                             \/ \E j \in 1..2 : UnzeroC(j)
                             \/ \E k \in 1..2, l \in 1..2 : Reload(k, l)
SameCells == \A k \in 1..2 : cell[k] = Cells(st.sc[k])
SkyPreserved == \A k \in 1..2 : Ghost(st, k) = sky[k]
ReadBack == LET n == Len(hist) IN (n > 0 /\ hist[n].op = "set") =>
   LET q == st.sc[hist[n].k] IN Flat([i \in Idx(Active(q)) |-> Vec(Active(q)[i])]) = Theta(n, Total(q))
IndexReads == \A k \in 1..2 : \A i \in Idx(st.sc[k]) : ~st.sc[k][i].fix =>
   LET v == Flat([a \in Idx(Active(st.sc[k])) |-> Vec(Active(st.sc[k])[a])]) IN [a \in 1..NPar(st.sc[k][i]) |-> v[Start(st.sc[k], i) + a]] = Vec(st.sc[k][i])
OthersKept == [][\A k \in 1..2 : (hist' # hist /\ LET e == hist'[Len(hist')] IN (e.op = "reload" /\ e.l # k) \/ (e.op # "reload" /\ e.k # k)) => st'.sc[k] = st.sc[k]]_<<st, hist>>
Emit == PrintT("EDGE " \o ToJson(hist'))
=============================================================================
