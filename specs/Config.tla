------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* C13: layering of defaults, configuration file and command line.         *)
(* An event describes every setting of one parse:                          *)
(*   [kind, def, file, cli, got]                                           *)
(*   def/file/cli: <<"absent">>, <<"null">>, or <<"val", tokens>>          *)
(*   got: <<"absent">>, <<"null">> or [t |-> "val", v |-> tokens,          *)
(*        form |-> "scalar" | "array" | "list" | "dtype" | ..,             *)
(*        env |-> unexpanded variables left, pre |-> store prefixes]       *)
(***************************************************************************)
EXTENDS Geo, TLC
Has2(r, f) == f \in DOMAIN r
InitState(c) == [n |-> 0]
Apply(st, ev) == [st EXCEPT !.n = @ + 1]
\* the winning layer: command line, then a non-null file entry, then the default
Winner(s) == IF s.cli[1] = "val" THEN s.cli
             ELSE IF s.file[1] = "val" THEN s.file
             ELSE IF s.def[1] # "absent" THEN s.def
             ELSE s.file                                  \* known only to the file, as null or absent
\* read_config has no defaults layer: file entries overridden by the arguments handed in
WantForm(s) == CASE s.kind \in {"list", "list2"} -> "array" [] s.kind = "dtype" -> "dtype" [] OTHER -> "scalar"
SettingVerdict(ev, s) ==
  LET w == Winner(s) IN
  IF w[1] = "absent" THEN (IF s.got.t = "val" THEN "a setting nobody gave has a value" ELSE "") ELSE
  IF w[1] = "null" THEN (IF s.got.t = "val" THEN "an unset setting has a value" ELSE "") ELSE
  IF s.got.t # "val" THEN "a setting lost its value" ELSE
  IF s.got.v # w[2] THEN "a setting has the value of another layer" ELSE
  IF s.got.form # WantForm(s) THEN "a setting is not normalised to its type" ELSE
  IF s.got.env # 0 THEN "a variable is not expanded" ELSE
  IF s.got.pre # (IF s.kind = "store" /\ ev.storedir THEN 1 ELSE 0) THEN "the store directory is not prepended exactly once" ELSE ""
Verdict(st, ev) ==
  IF Has2(ev, "exc") THEN "parsing failed: " \o ev.exc ELSE
  LET N == 1..Len(ev.set)
      bad == {k \in N : SettingVerdict(ev, ev.set[k]) # ""}
      want == {k \in N : ev.set[k].bound /\ Winner(ev.set[k])[1] = "val"}
  IN IF bad # {} THEN LET k == CHOOSE k \in bad : TRUE IN SettingVerdict(ev, ev.set[k]) \o " (" \o ev.set[k].name \o ")" ELSE
     IF {ev.bounds[k].name : k \in 1..Len(ev.bounds)} # {ev.set[k].name : k \in want} THEN "bound settings handed on are not the configured ones" ELSE
     IF \E k \in want : \E j \in 1..Len(ev.bounds) : ev.bounds[j].name = ev.set[k].name /\ ev.bounds[j].v # Winner(ev.set[k])[2]
     THEN "a bound setting handed on has another value" ELSE ""
=============================================================================
