------------------------------- MODULE C15M -------------------------------
(* Composition of checks: a pool of checks grows by creating atomic checks,   *)
(* compound checks and merges; every check is the set of its atomic members.  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS NAtoms, MaxPool, MaxSteps, Sim, Outcomes, Features

VARIABLES atoms, pool, h
vars == <<atoms, pool, h>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
\* outcomes: "pass", "one" (a reason), "many" (two reasons), "none" (no reason given), "blank" (an empty list of reasons)
Reasons(a, o, kind) == CASE o = "one" -> {<<a, kind, 1>>} [] o = "many" -> {<<a, kind, 1>>, <<a, kind, 2>>} [] OTHER -> {}

Custom(a) == a <= NAtoms
\* hint checks are identified by the set of features they need; the database supports the even ones
Verdict(m) == LET qf == {x \in m : x.t = "custom" /\ atoms[x.a].q # "pass"}
                  df == {x \in m : x.t = "custom" /\ atoms[x.a].d # "pass"}
                  hf == UNION {x.f : x \in {y \in m : y.t = "hint"}}
                  bad == {f \in hf : f % 2 = 1} IN
  [members |-> Cardinality(m), q |-> qf = {}, d |-> df = {} /\ bad = {},
   qr |-> UNION {Reasons(x.a, atoms[x.a].q, "q") : x \in qf}, dr |-> UNION {Reasons(x.a, atoms[x.a].d, "d") : x \in df}, hr |-> bad]
C(a) == [t |-> "custom", a |-> a, f |-> {}]
H(fs) == [t |-> "hint", a |-> 0, f |-> fs]
Add(op, args, m) == /\ pool' = Append(pool, m)
                    /\ h' = Append(h, [op |-> op, args |-> args, res |-> Verdict(m), ms |-> m])
                    /\ UNCHANGED atoms
Init == /\ atoms \in [1..NAtoms -> [q : Outcomes, d : Outcomes]] /\ pool = <<>> /\ h = <<>>
Un(s) == UNION {pool[s[i]] : i \in DOMAIN s}
Seqs == UNION {[1..n -> DOMAIN pool] : n \in 0..3}
RSeq == LET n == RandomElement(0..4) IN [i \in 1..n |-> RandomElement(DOMAIN pool)]
Args == IF ~Sim THEN Seqs ELSE {RSeq}
Step == /\ Len(h) < MaxSteps /\ Len(pool) < MaxPool
        /\ \E k \in Pick({"atom", "empty", "hint", "compound", "merge", "merge more", "merge one"}) :
           \/ k = "atom" /\ \E a \in Pick(1..NAtoms) : Add(k, <<a>>, {C(a)})
           \/ k = "empty" /\ Add(k, <<>>, {})
           \/ k = "hint" /\ \E fs \in Pick(SUBSET Features \ {{}}) : Add(k, <<fs>>, {H(fs)})
           \/ k = "compound" /\ Len(pool) > 0 /\ \E s \in Args : Add(k, <<s>>, Un(s))
           \/ k = "merge" /\ Len(pool) > 0 /\ \E s \in Args : Add(k, <<s>>, Un(s))
           \/ k = "merge more" /\ Len(pool) > 0 /\ \E s \in Args : \E u \in Args : Add(k, <<s, u>>, Un(s) \cup Un(u))
           \/ k = "merge one" /\ Len(pool) > 0 /\ \E s \in Pick(DOMAIN pool) : \E u \in Args : Add(k, <<s, u>>, pool[s] \cup Un(u))
Next == Step
Spec == Init /\ [][Next]_vars
Done == Len(h) = MaxSteps \/ Len(pool) = MaxPool
Emit == Done => PrintT("@@" \o ToJson([atoms |-> atoms, h |-> h]))
\* laws
Conjunction == \A i \in DOMAIN pool : LET v == Verdict(pool[i]) IN
  /\ v.q = (\A x \in pool[i] : Verdict({x}).q) /\ v.d = (\A x \in pool[i] : Verdict({x}).d)
  /\ v.qr = UNION {Verdict({x}).qr : x \in pool[i]}
  /\ (v.q => v.qr = {}) /\ (v.d => v.dr = {} /\ v.hr = {})
==========================================================================
