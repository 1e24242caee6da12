------------------------------- MODULE C26 -------------------------------
(* Cardinality estimators over a database whose contents shift: the precise   *)
(* estimator with and without its cache, the lookup estimator with its        *)
(* fallbacks and its growing file, and the distortion of another estimator.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt
CONSTANTS N, MaxLen, Sim
VARIABLES data, qs, cfg, cache, samples, start, h
vars == <<data, qs, cfg, cache, samples, start, h>>

T == 1..N
RE(S) == RandomElement(S)
One(S) == IF Sim THEN {RE(S)} ELSE S
Vals == 1..2
Rows == Vals \X Vals                          \* columns 1 and 2
Subs == SUBSET T \ {{}}
(* ------------------------------------------------ queries *)
\* a query is a sequence of joins between consecutive tables, possibly one more join, and filters
JoinSet == {[t |-> t, u |-> u, c |-> c, d |-> d] : t \in T, u \in T, c \in 1..2, d \in 1..2}
Chains == IF N = 4 THEN {{[t |-> 1, u |-> 2, c |-> c, d |-> 1], [t |-> 2, u |-> 3, c |-> d, d |-> 2], [t |-> x, u |-> 4, c |-> d, d |-> c]} : c \in 1..2, d \in 1..2, x \in 1..3}
          ELSE IF N = 2 THEN {{[t |-> 1, u |-> 2, c |-> c, d |-> d]} : c \in 1..2, d \in 1..2}
          ELSE {{[t |-> 1, u |-> 2, c |-> c, d |-> 1], [t |-> 2, u |-> 3, c |-> d, d |-> 2]} \cup x : c \in 1..2, d \in 1..2, x \in {{}, {}, {[t |-> 1, u |-> 3, c |-> 2, d |-> 1]}}}
Filters == SUBSET {[t |-> t, c |-> c, v |-> v] : t \in {1, N}, c \in {1}, v \in Vals}
Queries == {[joins |-> j, filters |-> f] : j \in Chains, f \in Filters}
JoinsIn(q, S) == {j \in q.joins : j.t \in S /\ j.u \in S}
RECURSIVE Reach(_, _, _)
Reach(q, S, R) == LET M == R \cup {x \in S : \E j \in JoinsIn(q, S) : (j.t \in R /\ j.u = x) \/ (j.u \in R /\ j.t = x)} IN IF M = R THEN R ELSE Reach(q, S, M)
Connected(q, S) == Reach(q, S, {CHOOSE x \in S : TRUE}) = S
Inter(q, cross) == {S \in Subs : cross \/ Connected(q, S)}

\* the number of combinations of rows that satisfy the predicates over S
Satisfies(q, S, m) == /\ \A j \in JoinsIn(q, S) : data[j.t][m[j.t]][j.c] = data[j.u][m[j.u]][j.d]
                      /\ \A f \in q.filters : f.t \in S => data[f.t][m[f.t]][f.c] = f.v
Combos(S) == {m \in [S -> 0..Max({Len(data[t]) : t \in T})] : \A t \in S : m[t] \in DOMAIN data[t]}
True(q, S) == Cardinality({m \in Combos(S) : Satisfies(q, S, m)})

(* ------------------------------------------------ answers *)
Exactly(n) == [lo |-> n, hi |-> n]
Unknown == Exactly(-1)
Error == Exactly(-2)
Cached(k, S) == [q |-> k, s |-> S] \in DOMAIN cache
CachedCard(k, S) == IF Cached(k, S) THEN cache[[q |-> k, s |-> S]] ELSE True(qs[k], S)
Hit(k, S) == {x \in samples : x.q = k /\ x.s = S}
Native(q, S) == 1000 + True(q, S)
LookupCard(k, S) == IF Hit(k, S) # {} THEN (CHOOSE x \in Hit(k, S) : TRUE).n
                    ELSE IF cfg.def # -3 THEN cfg.def
                    ELSE IF cfg.live = "actual" THEN True(qs[k], S)
                    ELSE IF cfg.live = "estimated" THEN Native(qs[k], S)
                    ELSE IF cfg.err THEN -2 ELSE -1
\* distortion by a factor of num/2
Lo(n) == (n * cfg.num) \div 2
Hi(n) == (n * cfg.num + 1) \div 2
Distorted(n) == IF cfg.random THEN [lo |-> IF cfg.num < 2 THEN Lo(n) ELSE n, hi |-> IF cfg.num < 2 THEN n ELSE Hi(n)] ELSE [lo |-> Lo(n), hi |-> Hi(n)]
DistortedLookup(n) == IF n < 0 THEN Exactly(n) ELSE Distorted(n)
Answer(e, k, S) == CASE e = "precise" -> Exactly(True(qs[k], S))
                     [] e = "cached" -> Exactly(CachedCard(k, S))
                     [] e = "lookup" -> Exactly(LookupCard(k, S))
                     [] e = "distorted" -> Distorted(CachedCard(k, S))
                     [] OTHER -> DistortedLookup(LookupCard(k, S))
Estimators == {"precise", "cached", "lookup", "distorted", "distorted lookup"}

(* ------------------------------------------------ effects *)
NewKeys(k, SS) == {[q |-> k, s |-> S] : S \in SS}
Remember(e, k, SS) == IF e \in {"cached", "distorted"}
                      THEN LET new == NewKeys(k, SS) \ DOMAIN cache
                           IN cache' = [x \in DOMAIN cache \cup new |-> IF x \in DOMAIN cache THEN cache[x] ELSE True(qs[k], x.s)]
                      ELSE UNCHANGED cache
Save(e, k, SS) == IF e \in {"lookup", "distorted lookup"} /\ cfg.def = -3 /\ cfg.live # "none" /\ cfg.save
                  THEN samples' = samples \cup {[q |-> k, s |-> S, n |-> LookupCard(k, S)] : S \in {X \in SS : Hit(k, X) = {}}}
                  ELSE UNCHANGED samples
Note(op, e, k, s, list) == h' = Append(h, [op |-> op, est |-> e, q |-> k, tabs |-> s, list |-> list])

Insert == \E t \in One(T) : \E r \in One(Rows) :
            /\ Len(data[t]) < 4
            /\ data' = [data EXCEPT ![t] = Append(@, r)]
            /\ Note("insert", "", t, r, <<>>) /\ UNCHANGED <<qs, cfg, cache, samples, start>>
Estimate == \E e \in One(Estimators) : \E k \in One(1..2) : \E S \in One(Subs) :
            /\ Note("estimate", e, k, SetToSeq(S), <<[s |-> SetToSeq(S), a |-> Answer(e, k, S)]>>)
            /\ Remember(e, k, {S}) /\ Save(e, k, {S}) /\ UNCHANGED <<data, qs, cfg, start>>
Several(op, e, k, tabs, SS) == /\ Note(op, e, k, tabs, SetToSeq({[s |-> SetToSeq(S), a |-> Answer(e, k, S)] : S \in SS}))
                               /\ Remember(e, k, SS) /\ Save(e, k, SS) /\ UNCHANGED <<data, qs, cfg, start>>
All == \E e \in One(Estimators) : \E k \in One(1..2) : Several("all", e, k, <<>>, Inter(qs[k], cfg.cross))
\* the nodes of a left-deep join order
Order == \E e \in One(Estimators) : \E k \in One(1..2) : \E p \in One({x \in [1..N -> T] : ToSet(x) = T}) :
            Several("order", e, k, p, {{t} : t \in T} \cup {{p[i] : i \in 1..m} : m \in 1..N})
Reset == /\ Note("reset", "", 0, <<>>, <<>>) /\ cache' = <<>> /\ UNCHANGED <<data, qs, cfg, samples, start>>
\* a new lookup estimator is created from the file
Reload == /\ Note("reload", "", 0, <<>>, <<>>) /\ UNCHANGED <<data, qs, cfg, cache, samples, start>>

Tables0(x) == IF Sim THEN {[t \in T |-> [i \in 1..RE(1..3) |-> RE(Rows)]]} ELSE {[t \in T |-> <<<<1, t>>, <<2, 1>>>>]}
Cfgs == [def : {-3, -1, 7}, live : {"none", "actual", "estimated"}, save : BOOLEAN, err : BOOLEAN, cross : BOOLEAN, num : {1, 3, 4}, random : BOOLEAN]
Samples0 == {[q |-> k, s |-> S, n |-> 40 + 10 * k + Cardinality(S)] : k \in 1..2, S \in Subs}
Init == data = <<>> /\ qs = <<>> /\ cfg = <<>> /\ cache = <<>> /\ samples = {} /\ start = <<>> /\ h = <<>>
Plain == CHOOSE j \in Chains : TRUE
Small == {c \in Cfgs : c.num = 3 /\ ~c.random /\ c.cross = c.save /\ (c.def # -3 => c.live = "none") /\ (c.save => c.live # "none") /\ (c.err => c.live = "none")}
QueryPairs(x) == IF Sim THEN {<<a, RE(Queries \ {a})>> : a \in {RE(Queries)}} ELSE {<<[joins |-> Plain, filters |-> {}], [joins |-> Plain, filters |-> {[t |-> 1, c |-> 1, v |-> 1]}]>>}
Setup == \E d \in Tables0(Len(h)) : \E q \in QueryPairs(Len(h)) : \E c \in One(IF Sim THEN Cfgs ELSE Small) : \E df \in (IF Sim THEN {RE({-3, -3, c.def})} ELSE {c.def}) :
         \E sm \in (IF Sim THEN {{x \in Samples0 : RE(1..3) = 1}} ELSE {{x \in Samples0 : x.s = {1}}}) :
            /\ data' = d /\ qs' = q /\ cfg' = [c EXCEPT !.def = df] /\ samples' = sm
            /\ start' = [data |-> d, samples |-> SetToSeq({[q |-> x.q, s |-> SetToSeq(x.s), n |-> x.n] : x \in sm})]
            /\ UNCHANGED <<cache, h>>
Act == /\ Len(h) < MaxLen
       /\ IF Sim THEN \E k \in {RE(1..9)} : CASE k \in {1, 2} -> Insert [] k \in {3, 4, 5} -> Estimate [] k = 6 -> All [] k = 7 -> Order [] k = 8 -> Reset [] OTHER -> Reload
          ELSE Insert \/ Estimate \/ All \/ Reset \/ Reload
Next == IF qs = <<>> THEN Setup ELSE Act
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------ what holds *)
Distinct == \A x \in samples : \A y \in samples : x.q = y.q /\ x.s = y.s => x = y                 \* at most one sample each
Fresh == qs # <<>> => \A k \in 1..2 : \A S \in Subs : Answer("precise", k, S) = Exactly(True(qs[k], S))
Bounds == qs # <<>> => \A k \in 1..2 : \A S \in Subs : LET n == CachedCard(k, S) IN Distorted(n).lo <= Distorted(n).hi
\* once a fallback was saved, it stays the answer
Stays == [][qs # <<>> => \A k \in 1..2 : \A S \in Subs : Hit(k, S) # {} => LookupCard(k, S)' = LookupCard(k, S)]_vars
Emit == Len(h) = MaxLen => PrintT("@@" \o ToJson([start |-> start, qs |-> [k \in 1..2 |-> [joins |-> SetToSeq(qs[k].joins), filters |-> SetToSeq(qs[k].filters)]], cfg |-> cfg, h |-> h]))
=============================================================================
