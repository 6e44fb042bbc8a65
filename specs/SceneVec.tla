------------------------------ MODULE SceneVec ------------------------------
(***************************************************************************)
(* C18: scenes, their parameter vectors, catalogues and kernel proposals.   *)
(* st.sc[k] = sequence of sources [kind, bands, fix, p]; p maps the name of *)
(* every parameter (bands, shapes) to its value.  st.ref[j] = <<ra, dec, k>>*)
(* the coordinates on which patch j has centred scene k (k = 0: none).      *)
(* Units: ra, dec and shapes 2^-22 (Q22), fluxes 2^-10, amplitudes Q22.     *)
(* cfg.radii, cfg.poly[m] = <<c0, c1, c2, c3, c4>>: the amplitude of        *)
(* component m is c0 + c1 n + c2 r + c3 n r + c4 r^2 on the tabulated grid  *)
(* cfg.nmin: the smallest tabulated sersic index                            *)
(***************************************************************************)
EXTENDS FixedPoint, FiniteSets
Has2(r, f) == f \in DOMAIN r
Idx(q) == 1..Len(q)
Ran(q) == {q[i] : i \in Idx(q)}
Cols(kind) == CASE kind = "G" -> <<"ra", "dec", "q", "pa", "sersic", "rhalf">>
                [] kind = "G2" -> <<"ra", "dec", "q", "pa">>
                [] kind = "E" -> <<"ra", "dec", "q", "pa">>
                [] kind = "S" -> <<"ra", "dec">>
                [] kind = "C" -> <<"ra", "dec", "ep", "ec", "sersic", "rhalf">>
                [] kind = "C2" -> <<"ra", "dec", "ep", "ec">>
Names(s) == s.bands \o Cols(s.kind)
NPar(s) == Len(Names(s))
Vec(s) == [i \in 1..NPar(s) |-> s.p[Names(s)[i]]]
Put(s, names, vals) == [s EXCEPT !.p = [n \in DOMAIN @ |-> IF n \in Ran(names) THEN vals[CHOOSE i \in Idx(names) : names[i] = n] ELSE @[n]]]
OneName(s, b) == IF b = "" THEN Names(s) ELSE <<b>> \o Cols(s.kind)
Defaults(kind) == Ran(Cols(kind)) \cup {"sersic", "rhalf"}
Source(kind, bands, vals) == [kind |-> kind, bands |-> bands, fix |-> FALSE,
    p |-> [n \in Ran(bands) \cup Defaults(kind) |-> IF n \in DOMAIN vals THEN vals[n] ELSE 0]]
Active(q) == SelectSeq(q, LAMBDA s : ~s.fix)
Fixed(q) == SelectSeq(q, LAMBDA s : s.fix)
Flat(qq) == FoldLeft(LAMBDA a, b : a \o b, <<>>, qq)
\* number of vector entries of active sources before source i
Start(q, i) == FoldLeft(LAMBDA a, j : a + (IF q[j].fix THEN 0 ELSE NPar(q[j])), 0, Ix(i - 1))
RECURSIVE SetAll(_, _, _)
SetAll(q, theta, at) == IF q = <<>> THEN <<>> ELSE
   LET s == q[1]  n == NPar(s) IN
   IF s.fix THEN <<s>> \o SetAll(Tail(q), theta, at)
   ELSE <<Put(s, Names(s), [i \in 1..n |-> theta[at + i]])>> \o SetAll(Tail(q), theta, at + n)
Sorted(q) == SortSeq(q, <)
\* even counts have the mean of the middle two (the values are multiples of large powers of two)
Median(q) == LET s == Sorted(q)  n == Len(s)  m == (n + 1) \div 2
             IN IF n % 2 = 1 THEN s[m] ELSE s[m] + (s[m + 1] - s[m]) \div 2
Shift(q, dr, dd) == [i \in Idx(q) |-> [q[i] EXCEPT !.p["ra"] = @ + dr, !.p["dec"] = @ + dd]]
Centre(q) == <<Median([i \in Idx(q) |-> q[i].p["ra"]]), Median([i \in Idx(q) |-> q[i].p["dec"]])>>
Zero(st, ev) == IF ev.sky = <<>> THEN Centre(st.sc[ev.k]) ELSE ev.sky
Forget(ref, k) == [j \in Idx(ref) |-> IF ref[j][3] = k THEN <<0, 0, 0>> ELSE ref[j]]
InitState(c) == [cfg |-> c, sc |-> [k \in 1..3 |-> <<>>], ref |-> [j \in 1..2 |-> <<0, 0, 0>>]]
Apply(st, ev) ==
  CASE ev.op = "new" -> [st EXCEPT !.sc[ev.k] = [i \in Idx(ev.src) |-> Source(ev.src[i].kind, ev.src[i].bands, ev.src[i].vals)], !.ref = Forget(@, ev.k)]
    [] ev.op = "fromcat" -> [st EXCEPT !.sc[ev.k] = [i \in Idx(ev.rows) |-> Source(ev.kind, ev.bands,
                               [n \in {n \in DOMAIN ev.rows[i] : n \in Ran(ev.bands) \cup Ran(Cols(ev.kind)) \cup Ran(ev.extra)} |-> ev.rows[i][n]])],
                               !.ref = Forget(@, ev.k)]
    [] ev.op = "set" -> [st EXCEPT !.sc[ev.k] = SetAll(@, ev.theta, 0)]
    [] ev.op = "setone" -> [st EXCEPT !.sc[ev.k][ev.i] = Put(@, OneName(@, ev.band), ev.vec)]
    [] ev.op = "fix" -> [st EXCEPT !.sc[ev.k][ev.i].fix = ev.val]
    [] ev.op = "zero" -> LET z == Zero(st, ev) IN [st EXCEPT !.sc[ev.k] = Shift(@, 0 - z[1], 0 - z[2]), !.ref[ev.j] = <<z[1], z[2], ev.k>>]
    [] ev.op = "unzero" -> LET z == st.ref[ev.j] IN [st EXCEPT !.sc[ev.k] = Shift(@, z[1], z[2]), !.ref[ev.j] = <<0, 0, 0>>]
    [] OTHER -> st

\* ---- mixture amplitudes and derivatives ----
Nearest(radii, r) == CHOOSE m \in Idx(radii) : \A l \in Idx(radii) : FAbs(radii[m] - r) <= FAbs(radii[l] - r)
Unit(n, m) == [i \in 1..n |-> IF i = m THEN One ELSE 0]
Nil(n) == [i \in 1..n |-> 0]
Flat1(c, s) == s.p["sersic"] < c.nmin \/ s.p["rhalf"] < 0
Amp(c, s) == LET n == s.p["sersic"]  r == s.p["rhalf"]  N == Len(c.radii) IN
   IF n < c.nmin THEN Unit(N, Nearest(c.radii, r)) ELSE
   IF r < 0 THEN Unit(N, 1) ELSE
   [m \in 1..N |-> LET k == c.poly[m] IN k[1] + FMul(k[2], n) + FMul(k[3], r) + FMul(k[4], FMul(n, r)) + FMul(k[5], FMul(r, r))]
DN(c, s) == LET r == s.p["rhalf"] IN IF Flat1(c, s) THEN Nil(Len(c.radii)) ELSE [m \in Idx(c.radii) |-> c.poly[m][2] + FMul(c.poly[m][4], r)]
DR(c, s) == LET n == s.p["sersic"]  r == s.p["rhalf"] IN IF Flat1(c, s) THEN Nil(Len(c.radii))
            ELSE [m \in Idx(c.radii) |-> c.poly[m][3] + FMul(c.poly[m][4], n) + 2 * FMul(c.poly[m][5], r)]
\* single precision
Close(a, b) == FAbs(a - b) <= FAbs(b) \div 4194304 + 1
CloseQ(a, b, tol) == Len(a) = Len(b) /\ \A i \in Idx(a) : FAbs(a[i] - b[i]) <= tol + FAbs(b[i]) \div 4194304
ProposalVerdict(c, s, o) ==
  IF Len(o.flux) # Len(s.bands) \/ \E b \in Idx(s.bands) : ~Close(o.flux[b], s.p[s.bands[b]]) THEN "a proposed flux is not that of the source and band" ELSE
  IF ~Close(o.ra, s.p["ra"]) \/ ~Close(o.dec, s.p["dec"]) THEN "a proposed position is not that of the source" ELSE
  IF s.kind = "C" /\ (~CloseQ(<<o.q, o.pa>>, <<o.wq, o.wpa>>, 8)) THEN "the proposed shape is not that of the shear" ELSE
  IF s.kind = "G" /\ (~Close(o.q, s.p["q"]) \/ ~Close(o.pa, s.p["pa"])) THEN "the proposed shape is not that of the source" ELSE
  IF ~Close(o.n, s.p["sersic"]) \/ ~Close(o.rh, s.p["rhalf"]) THEN "the proposed profile is not that of the source" ELSE
  IF ~CloseQ(o.amp, Amp(c, s), 12) THEN "proposed amplitudes do not belong to the shape" ELSE
  IF ~CloseQ(o.dn, DN(c, s), 12) THEN "proposed sersic derivatives do not belong to the shape" ELSE
  IF ~CloseQ(o.dr, DR(c, s), 24) THEN "proposed radius derivatives do not belong to the shape" ELSE ""
FirstBad(q, F(_)) == FoldLeft(LAMBDA a, i : IF a # "" THEN a ELSE F(i), "", Ix(Len(q)))
CatNames(q, extra) == <<"id">> \o Names(q) \o extra
NameOk(a, b, kind, i) == LET n == "_" \o ToString(i - 1) IN
   a = b \o n \/ (kind \in {"C", "C2"} /\ ((b = "sersic" /\ a = "n" \o n) \/ (b = "rhalf" /\ a = "r" \o n)))
Verdict(st, ev) ==
  LET c == st.cfg  q == st.sc[ev.k] IN
  IF Has2(ev, "exc") THEN "raised " \o ev.exc ELSE
  CASE ev.op \in {"new", "fromcat", "set", "setone", "fix", "unzero"} ->
         IF ev.op = "unzero" /\ st.ref[ev.j][3] # ev.k THEN "malformed trace" ELSE
         IF Has2(ev, "ids") /\ ev.ids # [i \in Idx(Apply(st, ev).sc[ev.k]) |-> i - 1] THEN "sources are not numbered in order" ELSE ""
    [] ev.op = "get" ->
         LET want == Flat([i \in Idx(IF ev.active THEN Active(q) ELSE q) |-> Vec((IF ev.active THEN Active(q) ELSE q)[i])]) IN
         IF Len(ev.out) # Len(want) THEN "the parameter vector has another length" ELSE
         IF ev.out # want THEN "the parameter vector is not the fluxes and shapes of the sources" ELSE ""
    [] ev.op = "getone" -> IF ev.out # [i \in Idx(OneName(q[ev.i], ev.band)) |-> q[ev.i].p[OneName(q[ev.i], ev.band)[i]]]
                           THEN "the source vector is not its flux and shape" ELSE ""
    [] ev.op = "names" ->
         LET n == Flat([i \in Idx(q) |-> [a \in 1..NPar(q[i]) |-> <<Names(q[i])[a], q[i].kind, i>>]]) IN
         IF Len(ev.out) # Len(n) \/ \E a \in Idx(n) : ~NameOk(ev.out[a], n[a][1], n[a][2], n[a][3]) THEN "parameter names are not those of the vector" ELSE ""
    [] ev.op = "index" ->
         LET s == q[ev.i]  at == Start(q, ev.i)
             fl == IF ev.band = "" THEN [b \in Idx(s.bands) |-> at + b] ELSE <<at + (CHOOSE b \in Idx(s.bands) : s.bands[b] = ev.band)>>
         IN IF ev.out # fl \o [a \in Idx(Cols(s.kind)) |-> at + Len(s.bands) + a] THEN "parameter indices are not those of the source in the vector" ELSE ""
    [] ev.op = "prop" ->
         LET w == IF ev.active THEN Active(q) ELSE Fixed(q) IN
         IF Len(ev.out) # Len(w) THEN "the proposal is not of the active sources" ELSE FirstBad(w, LAMBDA i : ProposalVerdict(c, w[i], ev.out[i]))
    [] ev.op = "amp" ->
         FirstBad(q, LAMBDA i : IF q[i].kind \in {"S", "E"} THEN (IF ev.out[i].amp # <<One>> \/ ev.out[i].dn # <<0>> \/ ev.out[i].dr # <<0>> THEN "amplitudes of a simple source" ELSE "") ELSE
              IF ~CloseQ(ev.out[i].amp, Amp(c, q[i]), 12) THEN "amplitudes do not belong to the shape" ELSE
              IF ~CloseQ(ev.out[i].dn, DN(c, q[i]), 12) \/ ~CloseQ(ev.out[i].dr, DR(c, q[i]), 24) THEN "amplitude derivatives do not belong to the shape" ELSE "")
    [] ev.op = "cat" ->
         IF Len(ev.rows) # Len(q) THEN "the catalogue has another number of rows" ELSE
         FirstBad(q, LAMBDA i :
              IF \E n \in Ran(CatNames(q[i], ev.extra)) : n \notin DOMAIN ev.rows[i] THEN "a catalogue column is missing" ELSE
              IF ev.rows[i]["id"] # i - 1 THEN "a catalogue row has another id" ELSE
              IF \E n \in Ran(Names(q[i])) : ev.rows[i][n] # q[i].p[n] THEN "a catalogue entry is not that of the source" ELSE
              IF \E n \in Ran(ev.extra) : n \in DOMAIN q[i].p /\ ev.rows[i][n] # q[i].p[n] THEN "an extra catalogue entry is not that of the source" ELSE "")
    [] ev.op = "zero" -> IF ev.out # Zero(st, ev) THEN "the scene is centred elsewhere" ELSE ""
    [] ev.op = "shear" ->
         IF ~CloseQ(<<ev.got[1]>>, <<ev.want[1]>>, 8) THEN "axis ratio of a shear" ELSE
         IF ~CloseQ(<<ev.got[2]>>, <<ev.want[2]>>, 8) THEN "position angle of a shear" ELSE
         IF \E a \in 1..2, b \in 1..2 : FAbs(ev.jac[a][b] - ev.fd[a][b]) > 400 + FAbs(ev.fd[a][b]) \div 8192 THEN "the shear Jacobian is not that of axis ratio and position angle" ELSE ""
    [] ev.op = "again" -> IF ev.a # ev.b THEN "an earlier vector, proposal or catalogue changed" ELSE ""
    [] OTHER -> "malformed trace"
=============================================================================
