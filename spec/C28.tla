------------------------------- MODULE C28 -------------------------------
(* The UES join ordering as a state machine on top of the join graph (C07).   *)
(* k numbers the query: its join predicates, base cardinalities and column    *)
(* frequencies are functions of k. All ties are explored, so that the final   *)
(* states of k are exactly the join orders that the algorithm may produce.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, MaxPreds, K, Seed, Linear, Style
VARIABLES cfg, pool, h, k, freq, ub, ph
vars == <<cfg, pool, h, k, freq, ub, ph>>

Cols == {"id", "pk", "f", "g", "n"}
G == INSTANCE C07 WITH Sim <- FALSE, MaxLen <- 0, MaxClones <- 0, Explicit <- TRUE
T == 1..N
Pairs == {p \in T \X T : p[1] < p[2]}

(* ------------------------------------------------------ the k-th query --- *)
Mix(x) == ((x % 30269) * ((x % 30269) + 17)) % 30307
Rnd(q, i) == Mix(Mix(Mix(q + 131 * Seed) + 977 * i) + q)
One(q, i, seq) == seq[1 + (Rnd(q, i) % Len(seq))]
Fk == <<"f", "g", "f">>
Pk == <<"id", "pk">>
Nm == <<"n", "f", "g">>
Star(q) == CASE Style = "star" -> TRUE [] Style \in {"mixed", "nm"} -> FALSE [] OTHER -> Rnd(q, 1) % 3 = 0
PredOf(q, i) == LET kind == IF Style = "nm" THEN 6 + (Rnd(q, i) % 16) ELSE Rnd(q, i) % 10 IN
  CASE kind < 4 \/ (Star(q) /\ kind < 7) -> <<One(q, i + 1, Fk), One(q, i + 2, Pk)>>
    [] kind < 7 \/ Star(q) -> <<One(q, i + 1, Pk), One(q, i + 2, Fk)>>
    [] OTHER -> <<One(q, i + 1, Nm), One(q, i + 2, Nm)>>
Tangled(ps) == /\ \E x \in DOMAIN ps : G!Kind(ps[x][1]) = "primary" /\ G!Kind(ps[x][2]) # "none"
               /\ \E x \in DOMAIN ps : G!Kind(ps[x][2]) = "primary" /\ G!Kind(ps[x][1]) # "none"
EdgeOf(q, p) ==
  LET i == 100 * p[1] + 10 * p[2]
      ps == IF MaxPreds > 1 /\ Rnd(q, i + 3) % (IF Style = "nm" THEN 2 ELSE 4) = 0 THEN <<PredOf(q, i + 4), PredOf(q, i + 7)>> ELSE <<PredOf(q, i + 4)>>
      keep == IF N = 2 THEN 85 ELSE IF N = 3 THEN 75 ELSE 50
  IN IF Rnd(q, i) % 100 >= keep \/ Tangled(ps) THEN <<>> ELSE ps
CfgOf(q) == [p \in Pairs |-> EdgeOf(q, p)]
\* all base cardinalities of a query are different
BaseOf(q) == [t \in T |-> IF t = 1 /\ Rnd(q, 2) % 20 = 0 THEN 0 ELSE 60 * (5 * (Rnd(q, 10 + t) % 7) + t)]
FreqOf(q) == [c \in T \X Cols |-> IF c[2] \in {"id", "pk"} THEN 1
              ELSE 1 + (Rnd(q, 20 + 10 * c[1] + (CASE c[2] = "f" -> 1 [] c[2] = "g" -> 2 [] OTHER -> 3)) % 4)]

(* --------------------------------------------------------------- bounds --- *)
base == BaseOf(k)
g0 == pool[1]
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
B(u, t) == IF u[t] >= 0 THEN u[t] ELSE base[t]
NMBound(u, i, ci, j, cj) == Min({B(u, i) * freq[<<j, cj>>], B(u, j) * freq[<<i, ci>>]})
Est(g, u, i, j) == Min({IF G!PkFk(g, i, j) THEN freq[<<i, p[1]>>] * base[j]
                        ELSE IF G!PkFk(g, j, i) THEN freq[<<j, p[2]>>] * base[i]
                        ELSE NMBound(u, i, p[1], j, p[2]) : p \in G!Preds(i, j)})
PkAvail(g, t) == {p \in T : G!PkFk(g, t, p) /\ (G!Free(g, t) \/ G!Free(g, p))}
NMPaths(g) == {p \in T \X T : G!Available(g, p[1], p[2]) /\ G!NM(g, p[1], p[2]) /\ (G!Initial(g) \/ ~G!Free(g, p[1]))}
FreeNM(g) == NMPaths(g) # {}
\* the bound of a table that is joined n:m next: its pk/fk joins act as filters
Upd(g, u) == [t \in T |-> IF \E p \in NMPaths(g) : p[2] = t THEN Min({base[t]} \cup {Est(g, u, t, p) : p \in PkAvail(g, t)}) ELSE u[t]]

Perms(S) == {s \in [1..Cardinality(S) -> S] : \A a, b \in DOMAIN s : s[a] = s[b] => a = b}
Sorted(S) == CHOOSE s \in Perms(S) : \A a \in 1..(Cardinality(S) - 1) : base[s[a]] <= base[s[a + 1]]
\* breadth-first along the pk/fk joins: <<fk, pk>> pairs
RECURSIVE Bfs(_, _, _, _)
Bfs(g, queue, seen, out) ==
  IF queue = <<>> THEN out
  ELSE LET e == Head(queue) IN
       IF e[2] \in seen \/ ~G!PkFk(g, e[1], e[2]) THEN Bfs(g, Tail(queue), seen, out)
       ELSE LET seen2 == seen \cup {e[2]}
                more == Sorted({t \in T \ seen2 : G!Edge(e[2], t)})
            IN Bfs(g, Tail(queue) \o [x \in DOMAIN more |-> <<e[2], more[x]>>], seen2, Append(out, e))
Deep(g, t) == LET s == Sorted({x \in T : G!Edge(t, x)}) IN Bfs(g, [x \in DOMAIN s |-> <<t, s[x]>>], {t}, <<>>)

Item(op, t, b, leaf, pks) == [op |-> op, t |-> t, b |-> b, leaf |-> leaf, pks |-> pks]
\* a sequence of pk/fk joins: each changes the graph before the next one is estimated
RECURSIVE Fold(_, _, _, _)
Fold(g, u, joins, out) ==
  IF joins = <<>> THEN [g |-> g, out |-> out]
  ELSE LET e == Head(joins) IN
       Fold(G!Mark(g, e[2], {e[1]}), u, Tail(joins), Append(out, [t |-> e[2], b |-> Est(g, u, e[1], e[2]), leaf |-> base[e[2]]]))
AsItems(pks) == [x \in DOMAIN pks |-> Item("join", pks[x].t, pks[x].b, pks[x].leaf, <<>>)]

(* ---------------------------------------------------------- frequencies --- *)
Huge == 5001
Mul(x, y) == IF x >= Huge \/ y >= Huge \/ x * y >= Huge THEN Huge ELSE x * y
RECURSIVE Partner(_, _, _, _)
Partner(f, i, j, preds) ==
  IF preds = <<>> THEN f
  ELSE LET a == <<i, Head(preds)[1]>>
           b == <<j, Head(preds)[2]>>
       IN Partner([f EXCEPT ![a] = Mul(f[a], f[b]), ![b] = Mul(f[a], f[b])], i, j, Tail(preds))
\* table t was joined with table i via the predicates; P is what was joined before, along with the pk tables of t
FreqAfter(i, t, P, preds) ==
  LET f == Partner(freq, i, t, preds)
      low == Min({f[<<t, p[2]>>] : p \in G!Preds(i, t)})
      third == {<<x, c>> \in P \X Cols : \E y \in P : \E p \in G!Preds(x, y) : p[1] = c}
  IN [c \in T \X Cols |-> IF c \in third THEN Mul(f[c], low) ELSE f[c]]
Overflow == \E c \in DOMAIN freq : freq[c] = Huge

(* -------------------------------------------------------------- actions --- *)
Set(g, u, f, p, items) == /\ pool' = <<g>> /\ ub' = u /\ freq' = f /\ ph' = p
                          /\ h' = h \o items /\ UNCHANGED <<cfg, k>>
TwoTables ==
  /\ N = 2 /\ ph = "init"
  /\ \E o \in T : LET i == 3 - o IN
       /\ base[o] >= base[i]
       /\ Set([g0 EXCEPT !.joined = T], ub, freq, "done",
              <<Item("scan", o, base[o], base[o], <<>>),
                Item("join", i, IF G!Edge(o, i) THEN Est(g0, ub, o, i) ELSE base[o] * base[i], base[i], <<>>)>>)
FirstTable ==
  /\ N > 2 /\ ph = "init" /\ FreeNM(g0)
  /\ LET u == Upd(g0, ub)
         cand == {p[2] : p \in NMPaths(g0)}
         low == Min({u[t] : t \in cand})
     IN \E t \in cand :
          /\ u[t] = low
          /\ LET r == Fold(G!Mark(g0, t, {}), u, Deep(g0, t), <<>>) IN
             Set(r.g, u, freq, "nm", <<Item("scan", t, low, low, <<>>)>> \o AsItems(r.out))
NMJoin ==
  /\ ph = "nm" /\ ~Overflow /\ FreeNM(g0)
  /\ LET u == Upd(g0, ub)
         est(p) == Est(g0, u, p[1], p[2])
         low == Min({est(p) : p \in NMPaths(g0)})
     IN \E p \in NMPaths(g0) :
          /\ est(p) <= low + 1          \* the bound is computed with fractions
          /\ LET t == p[2]
                 direct == PkAvail(g0, t)
                 branch == ~Linear /\ direct # {} /\ Cardinality(g0.joined) >= 2 /\ u[t] < base[t]
             IN \E order \in Perms({x \in direct : G!Free(g0, x)}), preds \in Perms(G!Preds(p[1], t)) :
                  LET g1 == G!Mark(g0, t, IF branch THEN G!Partners(g0, t) ELSE {p[1]})
                      r == Fold(g1, u, [x \in DOMAIN order |-> <<t, order[x]>>], <<>>)
                      f == FreqAfter(p[1], t, r.g.joined \ {t}, preds)
                  IN Set(r.g, u, f, "nm", IF branch THEN <<Item("sub", t, est(p), base[t], r.out)>>
                                          ELSE <<Item("join", t, est(p), base[t], <<>>)>> \o AsItems(r.out))
FirstPair ==
  /\ N > 2 /\ ph = "init" /\ ~FreeNM(g0)
  /\ LET paths == {p \in T \X T : G!Edge(p[1], p[2])}
         low == Min({Est(g0, ub, p[1], p[2]) : p \in paths})
     IN \E p \in paths :
          /\ Est(g0, ub, p[1], p[2]) = low
          /\ Set(G!Mark(G!Mark(g0, p[1], {}), p[2], {p[1]}), ub, freq, "star",
                 <<Item("scan", p[1], base[p[1]], base[p[1]], <<>>), Item("join", p[2], low, base[p[2]], <<>>)>>)
NextTable ==
  /\ ph = "star" \/ (ph = "nm" /\ ~Overflow /\ ~FreeNM(g0))
  /\ g0.joined # T
  /\ LET low == Min({Est(g0, ub, p[1], p[2]) : p \in G!Paths(g0)})
     IN \E p \in G!Paths(g0) :
          /\ Est(g0, ub, p[1], p[2]) <= low + 1
          /\ Set(G!Mark(g0, p[2], {p[1]}), ub, freq, ph, <<Item("join", p[2], Est(g0, ub, p[1], p[2]), base[p[2]], <<>>)>>)

Init == /\ k \in 1..K /\ cfg = CfgOf(k) /\ pool = <<[joined |-> {}, inv |-> {}]>> /\ h = <<>>
        /\ freq = FreqOf(k) /\ ub = [t \in T |-> -1] /\ ph = "init"
        /\ (N > 2 => Cardinality(G!Components) = 1)
Done == g0.joined = T \/ (ph = "nm" /\ Overflow)
Stay == Done /\ UNCHANGED vars
Next == TwoTables \/ FirstTable \/ NMJoin \/ FirstPair \/ NextTable \/ Stay
Spec == Init /\ [][Next]_vars

Emit == Done => PrintT("@@" \o ToJson([k |-> k, n |-> N, base |-> base, linear |-> Linear, big |-> g0.joined # T,
    preds |-> {[a |-> p[1], b |-> p[2], ps |-> cfg[p]] : p \in {x \in Pairs : cfg[x] # <<>>}},
    freq |-> {[t |-> c[1], c |-> c[2], f |-> FreqOf(k)[c]] : c \in T \X Cols}, h |-> h]))
----------------------------------------------------------------------------
TabsOf(i) == {h[i].t} \cup {h[i].pks[x].t : x \in DOMAIN h[i].pks}
\* each table is joined once, and with a join predicate
Complete == /\ UNION {TabsOf(i) : i \in DOMAIN h} = g0.joined
            /\ \A i, j \in DOMAIN h : i # j => TabsOf(i) \cap TabsOf(j) = {}
            /\ N > 2 => \A i \in 2..Len(h) : \E t \in TabsOf(i) : \E j \in 1..(i - 1) : \E s \in TabsOf(j) : G!Edge(s, t)
\* filters only reduce a table, and a bound is never a guess
Reduced == \A t \in T : ub[t] <= base[t]
NoBranches == Linear => \A i \in DOMAIN h : h[i].op # "sub"
==========================================================================
