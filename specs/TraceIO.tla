------------------------------ MODULE TraceIO ------------------------------
(* Reading recorded executions and reporting verdicts on them.            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACEFILE)
Reject(t, k, clause) == PrintT("REJECT " \o ToString(t) \o " " \o ToString(k) \o " " \o clause)
Has(r, f) == f \in DOMAIN r
=============================================================================
