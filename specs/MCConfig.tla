------------------------------ MODULE MCConfig ------------------------------
(* The three-step update (defaults, file, command line) for two settings   *)
(* at once: every combination of layers, spellings and coinciding values.  *)
EXTENDS Config, Json
CONSTANTS Kinds
VARIABLES s1, s2, conf, pc
Spell == {"space", "equals", "abbrev", "twice"}
Defs == {<<"null">>, <<"val", 1>>}
Files == {<<"absent">>, <<"null">>, <<"val", 1>>, <<"val", 2>>}
Clis == {<<"absent", "">>} \cup {<<"val", v, sp>> : v \in {1, 2, 3}, sp \in Spell}
Settings == {[kind |-> k, def |-> d, file |-> f, cli |-> c] : k \in Kinds, d \in Defs, f \in Files, c \in Clis}
Ok(s) == ~(s.kind \in {"list2"} /\ s.cli[1] = "val" /\ s.cli[3] = "equals")
Init == s1 \in Settings /\ s2 \in {s \in Settings : s.def[1] = "val" /\ (s.cli[1] = "absent" \/ s.file[1] = "absent")} /\ Ok(s1) /\ Ok(s2) /\ conf = <<0, 0>> /\ pc = 0
S == <<s1, s2>>
Val(l) == l[1] = "val"
\* step 1: defaults, step 2: non-null file entries, step 3: options given
Step == /\ pc < 3 /\ pc' = pc + 1 /\ UNCHANGED <<s1, s2>>
        /\ conf' = [k \in 1..2 |-> LET l == CASE pc = 0 -> S[k].def [] pc = 1 -> S[k].file [] OTHER -> S[k].cli
                                   IN IF Val(l) THEN l[2] ELSE conf[k]]
Next == Step
Layered == pc = 3 => \A k \in 1..2 : LET w == Winner(S[k]) IN conf[k] = IF w[1] = "val" THEN w[2] ELSE 0
Emit == pc = 2 => PrintT("EDGE " \o ToJson(<<s1, s2>>))
=============================================================================
