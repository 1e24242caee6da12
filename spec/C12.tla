------------------------------- MODULE C12 -------------------------------
(* Plan enumeration by dynamic programming.  A configuration fixes the join   *)
(* graph, the usable indexes, the allowed operators and the cost of every     *)
(* single operator; memo then grows by one connected set of tables at a time, *)
(* in any order in which all its connected parts are known.  The memoized     *)
(* costs have to be the minima over the complete plan space.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sizes, Flavors, ScanChoices, JoinChoices, Salts, MaxIdx, Sim

VARIABLES c, memo
vars == <<c, memo>>

Inf == 9999
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Pairs(k) == {{a, b} : a, b \in 1..k} \ {{a} : a \in 1..k}
Conn(g, A, B) == \E e \in g : e \cap A # {} /\ e \cap B # {}
RECURSIVE Reach(_, _, _)
Reach(g, S, W) == LET X == {v \in W \ S : Conn(g, {v}, S)} IN IF X = {} THEN S ELSE Reach(g, S \cup X, W)
Connected(g, W) == W # {} /\ Reach(g, {CHOOSE v \in W : TRUE}, W) = W

(* columns of table t: the number of a neighbour (its join column), 8 (id), 9 (filtered) *)
ColPool(k) == {<<t, x>> : t \in 1..k, x \in 1..k \cup {8, 9}} \ {<<t, t>> : t \in 1..k}
Empty == [n |-> 0, g |-> {}, pg |-> FALSE, sort |-> FALSE, sops |-> {}, jops |-> {}, idx |-> {}, f |-> {}, star |-> FALSE, salt |-> 0]
Init == c = Empty /\ memo = <<>>

V == 1..c.n
RECURSIVE W(_)
W(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN 2^(t - 1) + W(S \ {t})
OpNo(o) == CASE o = "NestedLoopJoin" -> 1 [] o = "HashJoin" -> 2 [] o = "SortMergeJoin" -> 3
             [] o = "SequentialScan" -> 4 [] o = "IndexScan" -> 5 [] o = "IndexOnlyScan" -> 6 [] o = "BitmapScan" -> 7
JoinCost(o, O, I) == ((((c.salt * (W(O) * 5 + OpNo(o))) + 3 * W(I) * (OpNo(o) + (c.salt % 7))) % 13) \div 2) + 1
ScanCost(o, t, x) == ((((c.salt * (t * 3 + OpNo(o))) + x * ((c.salt % 11) + OpNo(o))) % 17) \div 3) + 1
SortCost(S) == ((c.salt * W(S)) % 5) \div 2

Used(t) == {x \in V : {t, x} \in c.g} \cup (IF t \in c.f THEN {9} ELSE {}) \cup (IF c.star THEN {8, 9} ELSE {})
Indexed(t) == {x \in Used(t) : <<t, x>> \in c.idx}
\* access paths <<operator, table, column>>; column 0: no specific index
Access(t) == {<<o, t, 0>> : o \in c.sops \cap (IF Indexed(t) = {} THEN {"SequentialScan"} ELSE {"SequentialScan", "BitmapScan"})}
        \cup {<<o, t, x>> : x \in Indexed(t), o \in c.sops \cap (IF Cardinality(Used(t)) <= 1 THEN {"IndexScan", "IndexOnlyScan"} ELSE {"IndexScan"})}
ScanMin(P) == Min({Inf} \cup {ScanCost(p[1], p[2], p[3]) : p \in P})

Splits(S) == {A \in (SUBSET S) \ {{}, S} : Connected(c.g, A) /\ Connected(c.g, S \ A) /\ Conn(c.g, A, S \ A)}
JoinKeys(O, I) == {<<a, b>> \in O \X I : {a, b} \in c.g}
\* cheapest known path for S that is sorted on the column of t that joins it with x
Sorted(S, t, x) ==
  Min({Inf} \cup (IF S = {t} THEN {ScanMin({p \in Access(t) : p[3] = x})} ELSE {})
            \cup (IF c.sort THEN {memo[S] + SortCost(S)} ELSE {}))
JoinMin(S) ==
  Min({Inf} \cup UNION {LET O == A  I == S \ A IN
        {memo[O] + memo[I] + JoinCost(o, O, I) : o \in c.jops \ (IF c.pg THEN {"SortMergeJoin"} ELSE {})}
        \cup (IF c.pg /\ "SortMergeJoin" \in c.jops
              THEN {Sorted(O, k[1], k[2]) + Sorted(I, k[2], k[1]) + JoinCost("SortMergeJoin", O, I) : k \in JoinKeys(O, I)} ELSE {})
        : A \in Splits(S)})

Configure ==
  /\ c.n = 0
  /\ \E k \in Pick(Sizes) : \E g \in Pick({g \in SUBSET Pairs(k) : Connected(g, 1..k)}) :
     \E fl \in Pick(Flavors), so \in Pick(ScanChoices), jo \in Pick(JoinChoices), sa \in Pick(Salts) :
     \E ix \in IF Sim THEN {{p \in ColPool(k) : RandomElement(1..3) = 1}} ELSE {x \in SUBSET ColPool(k) : Cardinality(x) <= MaxIdx} :
     \E fi \in IF Sim THEN {{t \in 1..k : RandomElement(1..2) = 1}} ELSE {{}, {1}} : \E st \in Pick({TRUE, FALSE}) :
       c' = [n |-> k, g |-> g, pg |-> fl # "default", sort |-> fl = "postgres", sops |-> so, jops |-> jo, idx |-> ix, f |-> fi, star |-> st, salt |-> sa]
  /\ memo' = <<>>
Fillable == {S \in (SUBSET V) \ {{}} : /\ S \notin DOMAIN memo /\ Connected(c.g, S)
                                      /\ \A A \in (SUBSET S) \ {{}, S} : Connected(c.g, A) => A \in DOMAIN memo}
Fill == /\ c.n > 0 /\ V \notin DOMAIN memo
        /\ \E S \in IF Sim THEN Pick(Fillable) ELSE {CHOOSE S \in Fillable : \A R \in Fillable : W(S) <= W(R)} :
             LET cost == Min({Inf, IF Cardinality(S) = 1 THEN ScanMin(Access(CHOOSE t \in S : TRUE)) ELSE JoinMin(S)}) IN
             memo' = [R \in (DOMAIN memo) \cup {S} |-> IF R = S THEN cost ELSE memo[R]]
        /\ UNCHANGED c
Next == Configure \/ Fill
Spec == Init /\ [][Next]_vars

(* the complete plan space: <<cost, t, x>> for every plan of S and the column it is sorted by *)
RECURSIVE PlansOf(_)
PlansOf(S) ==
  IF Cardinality(S) = 1 THEN {<<ScanCost(p[1], p[2], p[3]), p[2], p[3]>> : p \in Access(CHOOSE t \in S : TRUE)}
  ELSE UNION {LET P == PlansOf(A)  Q == PlansOf(S \ A)
                  plain == {<<p[1] + q[1] + JoinCost(o, A, S \ A), 0, 0>> : p \in P, q \in Q, o \in c.jops \ (IF c.pg THEN {"SortMergeJoin"} ELSE {})}
                  SortedPlans(X, B, t, x) == {p[1] : p \in {p \in X : p[2] = t /\ p[3] = x}} \cup (IF c.sort THEN {p[1] + SortCost(B) : p \in X} ELSE {})
                  merged == IF c.pg /\ "SortMergeJoin" \in c.jops
                            THEN UNION {{<<u + v + JoinCost("SortMergeJoin", A, S \ A), 0, 0>> :
                                         u \in SortedPlans(P, A, k[1], k[2]), v \in SortedPlans(Q, S \ A, k[2], k[1])} : k \in JoinKeys(A, S \ A)}
                            ELSE {}
              IN plain \cup merged : A \in Splits(S)}
Done == c.n > 0 /\ V \in DOMAIN memo
Optimal == (Done /\ c.n <= 3) => \A S \in DOMAIN memo : memo[S] = Min({Inf} \cup {p[1] : p \in PlansOf(S)})
Complete == Done => DOMAIN memo = {S \in (SUBSET V) \ {{}} : Connected(c.g, S)}
Affordable == Done => \A S \in DOMAIN memo : memo[S] < 100 \/ memo[S] >= Inf

Conns == {S \in (SUBSET V) \ {{}} : Connected(c.g, S)}
Emit == Done =>
  PrintT("@@" \o ToJson([n |-> c.n, g |-> c.g, pg |-> c.pg, sort |-> c.sort, sops |-> c.sops, jops |-> c.jops, idx |-> c.idx, f |-> c.f, star |-> c.star,
    scans |-> UNION {{<<p, ScanCost(p[1], p[2], p[3])>> : p \in Access(t)} : t \in V},
    joins |-> UNION {{<<o, A, S \ A, JoinCost(o, A, S \ A)>> : A \in Splits(S), o \in c.jops} : S \in Conns},
    sorts |-> {<<S, SortCost(S)>> : S \in Conns},
    cards |-> {<<S, 10 * W(S) + c.salt>> : S \in Conns},
    opt |-> {<<S, memo[S]>> : S \in Conns}]))
=============================================================================
