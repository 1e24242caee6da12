------------------------------- MODULE C24T -------------------------------
(* Plans that a real DuckDB reported, next to what the system made of them: each recorded import must be the one the    *)
(* specification gives for the description (times in nanoseconds).                                                     *)
EXTENDS C24

VARIABLE i
Traces == JsonDeserialize("traces.json")
InitT == i \in DOMAIN Traces /\ stack = <<>> /\ n = 0
NextT == UNCHANGED <<i, stack, n>>
SpecT == InitT /\ [][NextT]_<<i, stack, n>>
Verdict == PrintT("@@" \o ToJson([i |-> i, ok |-> Import(Traces[i].plan) = Traces[i].got, want |-> Import(Traces[i].plan)]))
===========================================================================
