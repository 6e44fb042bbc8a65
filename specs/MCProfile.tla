------------------------------ MODULE MCProfile -----------------------------
(* One galaxy seen as rings of light: brightness b[r] never increases      *)
(* outwards, ring r has area 2r-1.  All sequences of changes of the        *)
(* parameters and of questions about the profile; the relations between    *)
(* the answers are those the recorded answers are held to (Profile.tla).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS R, L, Depth
VARIABLES b, ver, hist, ans
Rings == 1..R
Shapes == {f \in [Rings -> 0..L] : f[1] > 0 /\ \A r \in 1..(R - 1) : f[r] >= f[r + 1]}
RECURSIVE E(_, _), M(_, _)
E(f, r) == IF r = 0 THEN 0 ELSE E(f, r - 1) + f[r] * (2 * r - 1)
M(f, r) == IF r = 0 THEN 0 ELSE M(f, r - 1) + r * f[r] * (2 * r - 1)
Iso(f, v) == Cardinality({r \in Rings : f[r] >= v})
Half(f) == CHOOSE r \in Rings : 2 * E(f, r) >= E(f, R) /\ \A s \in Rings : s < r => 2 * E(f, s) < E(f, R)
Init == b \in Shapes /\ ver = 0 /\ hist = <<>> /\ ans = <<>>
Answer(q) == [k |-> q, ver |-> ver,
              v |-> CASE q = "enclosed" -> [r \in Rings |-> E(b, r)] [] q = "kron" -> [r \in Rings |-> M(b, r)]
                      [] q = "isophote" -> [r \in Rings |-> IF r <= L THEN Iso(b, r) ELSE 0] [] q = "inverse" -> [r \in Rings |-> Half(b)]
                      [] q = "mixture" -> b]
Ask(q) == ans' = Append(ans, Answer(q)) /\ hist' = Append(hist, q) /\ UNCHANGED <<b, ver>>
Set == hist # <<>> /\ hist[Len(hist)] # "set" /\ \E f \in Shapes : b' = f /\ ver' = ver + 1 /\ hist' = Append(hist, "set") /\ UNCHANGED ans
Next == Len(hist) < Depth /\ (Set \/ \E q \in {"enclosed", "kron", "isophote", "inverse", "mixture"} : Ask(q))
Spec == Init /\ [][Next]_<<b, ver, hist, ans>>
Grows == \A r \in 1..(R - 1) : E(b, r) <= E(b, r + 1)
\* moment / enclosed never exceeds the radius and never shrinks as light is added
Moment == \A r \in Rings : M(b, r) <= r * E(b, r) /\ (r < R => M(b, r) * E(b, r + 1) <= M(b, r + 1) * E(b, r))
Nested == \A u, v \in 1..L : u <= v => Iso(b, v) <= Iso(b, u)
HalfIsHalf == 2 * E(b, Half(b)) >= E(b, R) /\ 2 * E(b, Half(b) - 1) <= E(b, R)
\* questions between two changes of the parameters get one answer
Same == \A i, j \in 1..Len(ans) : ans[i].k = ans[j].k /\ ans[i].ver = ans[j].ver => ans[i] = ans[j]
NoMemory == \A i \in 1..Len(ans) : ans[i].ver = ver => ans[i] = [Answer(ans[i].k) EXCEPT !.ver = ver]
Emit == Len(hist') < Depth \/ PrintT("EDGE " \o ToJson(hist'))
=============================================================================
