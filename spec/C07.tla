------------------------------- MODULE C07 -------------------------------
(* The join graph as a state machine.                                         *)
(* cfg: for every pair of tables the (possibly empty) list of equality        *)
(* predicates, given as <<column of the first, column of the second>>.        *)
(* pool: the original graph and its clones; each has a set of joined tables   *)
(* and a set of columns whose index can no longer be used.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N,          \* number of tables
          Cols,       \* columns that may occur in join predicates
          MaxPreds,   \* predicates per edge
          MaxLen, MaxClones, Sim, Explicit

VARIABLES cfg, pool, h
vars == <<cfg, pool, h>>

T == 1..N
Pairs == {p \in T \X T : p[1] < p[2]}
Kind(c) == CASE c \in {"id", "pk"} -> "primary" [] c \in {"f", "g"} -> "secondary" [] OTHER -> "none"
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

(* predicates between two tables, oriented *)
Preds(i, j) == IF i < j THEN {cfg[<<i, j>>][k] : k \in DOMAIN cfg[<<i, j>>]}
               ELSE IF i > j THEN {<<cfg[<<j, i>>][k][2], cfg[<<j, i>>][k][1]>> : k \in DOMAIN cfg[<<j, i>>]}
               ELSE {}
Edge(i, j) == Preds(i, j) # {}
Edges == {p \in Pairs : Edge(p[1], p[2])}
AllCols == {tc \in T \X Cols : \E u \in T : \E p \in Preds(tc[1], u) : p[1] = tc[2]}

Usable(g, t, c) == Kind(c) # "none" /\ <<t, c>> \notin g.inv
PkFk(g, fk, pk) == \E p \in Preds(fk, pk) : Usable(g, fk, p[1]) /\ Usable(g, pk, p[2]) /\ Kind(p[2]) = "primary"
NM(g, i, j) == Edge(i, j) /\ ~PkFk(g, i, j) /\ ~PkFk(g, j, i)

Initial(g) == g.joined = {}
Free(g, t) == t \notin g.joined
Available(g, i, j) == Edge(i, j) /\ (Initial(g) \/ (Free(g, i) # Free(g, j)))
Paths(g) == IF Initial(g) THEN Edges ELSE {p \in T \X T : Edge(p[1], p[2]) /\ ~Free(g, p[1]) /\ Free(g, p[2])}

RECURSIVE Component(_)
Component(S) == LET S2 == S \cup {t \in T : \E s \in S : Edge(s, t)} IN IF S2 = S THEN S ELSE Component(S2)
Components == {Component({t}) : t \in T}

RECURSIVE PkClosure(_, _)
PkClosure(g, S) == LET S2 == S \cup {t \in T : \E s \in S : PkFk(g, s, t)} IN IF S2 = S THEN S ELSE PkClosure(g, S2)

(* joining table t with the partner tables P (all of them already joined) *)
Invalidated(g, t, P) ==
  LET kind(p) == IF PkFk(g, t, p) /\ PkFk(g, p, t) THEN "pkpk" ELSE IF PkFk(g, t, p) THEN "t-fk" ELSE IF PkFk(g, p, t) THEN "t-pk" ELSE "nm"
      own(p) == {<<t, q[1]>> : q \in Preds(t, p)}
      theirs(p) == {<<p, q[2]>> : q \in Preds(t, p)}
      rest(p) == {c \in AllCols : c[1] \in (g.joined \cup {t}) \ {p}}
      one(p) == CASE kind(p) = "pkpk" -> {}
                  [] kind(p) = "t-fk" -> theirs(p)
                  [] kind(p) = "t-pk" -> own(p) \cup rest(p)
                  [] OTHER -> own(p) \cup theirs(p) \cup rest(p)
  IN UNION {one(p) : p \in P}
Mark(g, t, P) == [joined |-> g.joined \cup {t}, inv |-> IF g.joined = {} THEN g.inv ELSE g.inv \cup Invalidated(g, t, P)]
Partners(g, t) == {p \in g.joined : Edge(t, p)}

Obs(g) == [joined |-> g.joined, initial |-> Initial(g),
           paths |-> Paths(g),
           nm |-> {p \in Paths(g) : NM(g, p[1], p[2])},
           pkfk |-> {p \in T \X T : PkFk(g, p[1], p[2])},
           freenm |-> \E p \in Edges : NM(g, p[1], p[2]) /\ Available(g, p[1], p[2]),
           deep |-> [t \in T |-> PkClosure(g, {t}) \ {t}],
           idx |-> {[t |-> c[1], c |-> c[2], kind |-> Kind(c[2]), ok |-> Usable(g, c[1], c[2])] : c \in AllCols}]

(* ------------------------------------------------------------------ actions *)
EdgeChoices == UNION {[1..n -> Cols \X Cols] : n \in 0..MaxPreds}
\* random graphs: an edge is absent with probability one half
RandomEdge == IF RandomElement({TRUE, FALSE}) THEN <<>> ELSE
              LET n == IF RandomElement(1..4) = 1 /\ MaxPreds > 1 THEN 2 ELSE 1 IN [k \in 1..n |-> <<RandomElement(Cols), RandomElement(Cols)>>]
Configure ==
  /\ cfg = <<>>
  /\ cfg' \in (IF Sim THEN {[p \in Pairs |-> RandomEdge]} ELSE [Pairs -> EdgeChoices])
  /\ pool' = <<[joined |-> {}, inv |-> {}]>>
  /\ h' = <<>>
Do(op, i, t, edge, p2) ==
  /\ pool' = p2 /\ UNCHANGED cfg
  /\ h' = Append(h, [op |-> op, on |-> i, t |-> t, edge |-> edge])
MarkJoined == \E i \in Pick(1..Len(pool)) : \E t \in (IF pool[i].joined = T THEN {} ELSE Pick(T \ pool[i].joined)) :
     Do("mark", i, t, 0, [pool EXCEPT ![i] = Mark(pool[i], t, Partners(pool[i], t))])
\* the caller names the join condition: only that partner counts
MarkVia == /\ Explicit
           /\ \E i \in Pick(1..Len(pool)) : \E e \in (IF Initial(pool[i]) \/ Paths(pool[i]) = {} THEN {} ELSE Pick(Paths(pool[i]))) :
                Do("mark", i, e[2], e[1], [pool EXCEPT ![i] = Mark(pool[i], e[2], {e[1]})])
Clone == /\ Len(pool) <= MaxClones
         /\ \E i \in Pick(1..Len(pool)) : Do("clone", i, 0, 0, Append(pool, pool[i]))

Init == cfg = <<>> /\ pool = <<>> /\ h = <<>>
Next == \/ Configure
        \/ /\ cfg # <<>> /\ Len(h) < MaxLen
           /\ (MarkJoined \/ MarkVia \/ Clone)
Spec == Init /\ [][Next]_vars

Case == [n |-> N, cfg |-> [p \in Pairs |-> cfg[p]], h |-> h]
Done == cfg # <<>> /\ (Len(h) = MaxLen \/ \A i \in 1..Len(pool) : pool[i].joined = T)
CfgSeq == {[a |-> p[1], b |-> p[2], preds |-> cfg[p]] : p \in Edges}
(* one line per visited state: the state, and what every query must answer in it *)
Emit == cfg # <<>> => PrintT("@@" \o ToJson([cfg |-> CfgSeq, h |-> h, obs |-> [i \in 1..Len(pool) |-> Obs(pool[i])],
                                             comps |-> Components]))
----------------------------------------------------------------------------
Partition == cfg # <<>> => \A i \in 1..Len(pool) :
    LET g == pool[i] IN
    /\ g.joined \subseteq T
    /\ \A p \in Paths(g) : Initial(g) \/ (p[1] \in g.joined /\ p[2] \notin g.joined)
    /\ \A s \in T, t \in T : Edge(s, t) => (NM(g, s, t) # (PkFk(g, s, t) \/ PkFk(g, t, s)))
Step == cfg # <<>> => \A i \in 1..Len(pool) :
    /\ pool[i].joined \subseteq pool'[i].joined
    /\ Cardinality(pool'[i].joined \ pool[i].joined) <= 1
    /\ pool[i].inv \subseteq pool'[i].inv
    /\ Cardinality({j \in 1..Len(pool) : pool'[j] # pool[j]}) <= 1
Monotone == [][Step]_vars
==========================================================================
