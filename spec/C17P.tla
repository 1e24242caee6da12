------------------------------- MODULE C17P -------------------------------
(* The pool of databases: connections are opened under a key, re-used,        *)
(* refreshed or kept private, closed behind the pool's back, and the pool is  *)
(* cleared.  Databases are numbered in the order in which they were created.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Keys, MaxOps, Sim
VARIABLES pool, count, closed, hist
vars == <<pool, count, closed, hist>>
\* pool: sequence of [key, no, db]; no = 1 for the key itself, n for "key - n"
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

Init == pool = <<>> /\ count = 0 /\ closed = {} /\ hist = <<>>
Has(k, n) == \E x \in 1..Len(pool) : pool[x].key = k /\ pool[x].no = n
At(k, n) == pool[CHOOSE x \in 1..Len(pool) : pool[x].key = k /\ pool[x].no = n].db
FreeNo(k) == IF ~Has(k, 1) THEN 1 ELSE CHOOSE n \in 2..(Len(pool) + 2) : ~Has(k, n) /\ \A m \in 2..(n - 1) : Has(k, m)

Put(p, k, n, d) == IF \E x \in 1..Len(p) : p[x].key = k /\ p[x].no = n
                   THEN [x \in 1..Len(p) |-> IF p[x].key = k /\ p[x].no = n THEN [p[x] EXCEPT !.db = d] ELSE p[x]]
                   ELSE Append(p, [key |-> k, no |-> n, db |-> d])
Obs(p) == [pool |-> p, current |-> IF Len(p) = 1 THEN p[1].db ELSE 0]
Step(op, k, n, flag, res, p) == hist' = Append(hist, [op |-> op, key |-> k, no |-> n, flag |-> flag, res |-> res, obs |-> Obs(p)])

Connect == \E k \in Pick(Keys) : \E f \in Pick({"", "refresh", "private", "refresh private"}) :
    LET reuse == Has(k, 1) /\ f \in {"", "private"}
        new == count + 1
        n == FreeNo(k) IN
    /\ IF reuse THEN pool' = pool /\ count' = count /\ closed' = closed \ {At(k, 1)} /\ Step("connect", k, 0, f, At(k, 1), pool)
       ELSE /\ count' = new /\ closed' = closed
            /\ pool' = IF f \in {"private", "refresh private"} THEN pool ELSE Put(pool, k, n, new)
            /\ Step("connect", k, 0, f, new, pool')
Register == \E k \in Pick(Keys) : \E n \in Pick({1, 2}) :
    /\ count' = count + 1 /\ pool' = Put(pool, k, n, count + 1) /\ UNCHANGED closed
    /\ Step("register", k, n, "", count + 1, pool')
Retrieve == \E k \in Pick(Keys) : \E n \in Pick({1, 2, 3}) :
    /\ Step("retrieve", k, n, "", IF Has(k, n) THEN At(k, n) ELSE 0, pool) /\ UNCHANGED <<pool, count, closed>>
Close == /\ pool # <<>> /\ \E x \in Pick(1..Len(pool)) : closed' = closed \cup {pool[x].db} /\ Step("close", "", 0, "", pool[x].db, pool)
         /\ UNCHANGED <<pool, count>>
Clear == pool' = <<>> /\ UNCHANGED <<count, closed>> /\ Step("clear", "", 0, "", 0, <<>>)

Next == \/ /\ Len(hist) < MaxOps
           /\ \E c \in Pick({"connect", "connect2", "register", "retrieve", "clear"} \cup (IF pool # <<>> THEN {"close"} ELSE {})) :
                CASE c \in {"connect", "connect2"} -> Connect [] c = "register" -> Register [] c = "retrieve" -> Retrieve [] c = "close" -> Close [] c = "clear" -> Clear
        \/ /\ Len(hist) = MaxOps /\ PrintT("@@" \o ToJson(hist)) /\ UNCHANGED <<pool, count, closed>>
           /\ hist' = Append(hist, [op |-> "end", key |-> "", no |-> 0, flag |-> "", res |-> 0, obs |-> Obs(pool)])
Spec == Init /\ [][Next]_vars

OneEach == \A x \in 1..Len(pool) : \A y \in 1..Len(pool) : pool[x].key = pool[y].key /\ pool[x].no = pool[y].no => x = y
Known == \A x \in 1..Len(pool) : pool[x].db \in 1..count
\* only registering under the same key or clearing removes a database from the pool
Stays == [][\A x \in 1..Len(pool) : (\E y \in 1..Len(pool') : pool'[y] = pool[x])
            \/ (Len(hist') > Len(hist) /\ (hist'[Len(hist')].op = "clear" \/ (hist'[Len(hist')].op = "register" /\ hist'[Len(hist')].key = pool[x].key /\ hist'[Len(hist')].no = pool[x].no)))]_vars
=============================================================================
