------------------------------- MODULE C24 -------------------------------
(* Importing the plan descriptions of Postgres and DuckDB: descriptions are grown bottom-up on a stack, Import says     *)
(* which query plan the description denotes.                                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sys,      \* "pg" or "duck"
          MaxOps,   \* number of construction steps
          MaxStack, \* number of partial plans at a time
          Variants, \* kinds of measurements
          Sim, Rich \* Rich: all node types, otherwise one representative of each family

VARIABLES stack, n
vars == <<stack, n>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
U == -1   \* not reported / unknown

RECURSIVE Cat(_), Sum(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Map(s, f(_)) == [i \in DOMAIN s |-> f(s[i])]

(* ------------------------------------------------------------ descriptions *)
(* rel: role below its parent; est/cost estimates; q quarters of a row per loop, loops, ms milliseconds; p/l planned and
   launched workers; hits/misses buffers. *)
Meas(id, v) ==
  CASE v = "explain" -> [est |-> 10 * id + 3, cost |-> 100 * id, q |-> U, loops |-> U, ms |-> U, hits |-> U, misses |-> U]
    [] v = "analyze" -> [est |-> 10 * id + 3, cost |-> 100 * id, q |-> 4 * (7 * id + 1), loops |-> 1, ms |-> 20 * id, hits |-> id, misses |-> 0]
    [] v = "loops" -> [est |-> 10 * id + 3, cost |-> 100 * id, q |-> 4 * id + 1, loops |-> 3, ms |-> 20 * id, hits |-> 0, misses |-> 2 * id]
    [] v = "never" -> [est |-> 10 * id + 3, cost |-> 100 * id, q |-> 0, loops |-> 0, ms |-> 0, hits |-> 0, misses |-> 0]
    [] v = "timing off" -> [est |-> 10 * id + 3, cost |-> 100 * id, q |-> 4 * id, loops |-> 1, ms |-> U, hits |-> U, misses |-> U]
    [] v = "costs off" -> [est |-> U, cost |-> U, q |-> 8 * id, loops |-> 2, ms |-> 7 * id, hits |-> U, misses |-> U]

Node(ty, v, kids) == [ty |-> ty, rel |-> "", tab |-> "", al |-> "", ix |-> "", nm |-> "", p |-> U, l |-> U, kids |-> kids] @@ Meas(n + 1, v)
As(rel, d) == [d EXCEPT !.rel = rel]

(* ------------------------------------------------------------ the plan a description denotes *)
Op(ty) ==
  CASE ty = "Nested Loop" -> "NestedLoopJoin" [] ty = "Hash Join" -> "HashJoin" [] ty = "Merge Join" -> "SortMergeJoin"
    [] ty = "Seq Scan" -> "SequentialScan" [] ty = "Index Scan" -> "IndexScan" [] ty = "Index Only Scan" -> "IndexOnlyScan"
    [] ty = "Bitmap Heap Scan" -> "BitmapScan"
    [] ty = "Materialize" -> "Materialize" [] ty = "Memoize" -> "Memoize" [] ty = "Sort" -> "Sort"
    [] ty = "HASH_JOIN" -> "HashJoin" [] ty = "Sequential Scan" -> "SequentialScan" [] ty = "Index Scan (duck)" -> "IndexScan"
    [] OTHER -> ""
Named(d, rel) == SelectSeq(d.kids, LAMBDA k : k.rel = rel)
Subs == {"SubPlan", "InitPlan", "Subquery"}
Inputs(d) == Named(d, "Outer") \o Named(d, "Inner") \o Named(d, "Member")

\* the optimizer reports estimates below a Gather per worker, and actual rows as an average over the loops
Rounded(quarters) == (quarters + 2) \div 4
RECURSIVE ImportPg(_, _), ImportDuck(_), Size(_), SizeQ(_)
ImportPg(d, adj) ==
  LET below == IF adj > 1 THEN adj ELSE IF d.p = U THEN 1 ELSE d.p + 1 IN
  [ty |-> d.ty, op |-> Op(d.ty), tab |-> d.tab, al |-> d.al, ix |-> d.ix,
   est |-> IF d.est = U THEN U ELSE d.est * adj,
   act |-> IF d.q = U \/ d.ty \in {"BitmapAnd", "BitmapOr"} THEN U ELSE Rounded(d.q * (IF d.loops = U THEN 1 ELSE d.loops)),
   cost |-> d.cost, ms |-> d.ms, hits |-> d.hits, misses |-> d.misses,
   w |-> IF d.l # U THEN d.l ELSE IF d.p # U THEN d.p ELSE 0,
   kids |-> Map(Inputs(d), LAMBDA k : ImportPg(k, below)),
   subs |-> Map(SelectSeq(d.kids, LAMBDA k : k.rel \in Subs), LAMBDA k : ImportPg(k, below))]
\* DuckDB reports the time spent in the operator alone, a plan node stands for its entire subplan
ImportDuck(d) ==
  LET kids == Map(d.kids, LAMBDA k : ImportDuck(k))
      unknown == d.ms = U \/ \E i \in DOMAIN kids : kids[i].ms = U IN
  [ty |-> d.ty, op |-> Op(d.ty), tab |-> d.tab, al |-> d.al, ix |-> "",
   est |-> d.est, act |-> IF d.q = U THEN U ELSE d.q \div 4, cost |-> U,
   ms |-> IF unknown THEN U ELSE d.ms + Sum(Map(kids, LAMBDA k : k.ms)),
   hits |-> U, misses |-> U, w |-> 0, kids |-> kids, subs |-> <<>>]
Import(d) == IF Sys = "pg" THEN ImportPg(d, 1) ELSE ImportDuck(d)

Size(d) == 1 + Sum(Map(d.kids, Size))
SizeQ(p) == 1 + Sum(Map(p.kids, SizeQ)) + Sum(Map(p.subs, SizeQ))
RECURSIVE Scanned(_), ScannedQ(_)
Scanned(d) == {d.al} \cup UNION {Scanned(d.kids[i]) : i \in DOMAIN d.kids}
ScannedQ(p) == {p.al} \cup UNION {ScannedQ(p.kids[i]) : i \in DOMAIN p.kids} \cup UNION {ScannedQ(p.subs[i]) : i \in DOMAIN p.subs}

(* ------------------------------------------------------------ growing descriptions *)
Init == stack = <<>> /\ n = 0
Top == stack[Len(stack)]
Below == stack[Len(stack) - 1]
Replace(k, d) == stack' = Append(SubSeq(stack, 1, Len(stack) - k), d) /\ n' = n + 1
Few(S, s) == IF Rich THEN S ELSE s
\* every scan gets a table of its own (with or without an alias), so that misplaced inputs are noticed
Scan == /\ Len(stack) < MaxStack
        /\ IF Sys = "pg"
           THEN \E ty \in Pick(Few({"Seq Scan", "Index Scan", "Index Only Scan", "Bitmap Heap Scan", "Function Scan", "Tid Scan"}, {"Seq Scan", "Index Scan"})),
                   aliased \in Pick({TRUE, FALSE}), v \in Pick(Variants) :
                  LET alias == IF aliased THEN "a" \o ToString(n) ELSE "t" \o ToString(n)
                      inner == IF ty = "Bitmap Heap Scan" THEN <<[As("Outer", Node("Bitmap Index Scan", v, <<>>)) EXCEPT !.ix = "ix" \o ToString(n)]>> ELSE <<>>
                      leaf == ty = "Function Scan" IN
                  Replace(0, [Node(ty, v, inner) EXCEPT !.tab = IF leaf THEN "" ELSE "t" \o ToString(n), !.al = IF leaf THEN "" ELSE alias,
                                                        !.ix = IF ty \in {"Index Scan", "Index Only Scan"} THEN "ix" \o ToString(n) ELSE ""])
           ELSE \E ty \in Pick({"Sequential Scan", "Index Scan (duck)"}), aliased \in Pick({TRUE, FALSE}), v \in Pick(Variants) :
                  Replace(0, [Node(ty, v, <<>>) EXCEPT !.tab = "t" \o ToString(n), !.al = IF aliased THEN "a" \o ToString(n) ELSE "t" \o ToString(n)])
\* combining several bitmaps before visiting the table
BitmapOf == /\ Sys = "pg" /\ Len(stack) < MaxStack
            /\ \E ty \in Pick({"BitmapAnd", "BitmapOr"}), v \in Pick(Variants) :
                 LET one == [As("Member", Node("Bitmap Index Scan", v, <<>>)) EXCEPT !.ix = "ixa"]
                     two == [As("Member", Node("Bitmap Index Scan", v, <<>>)) EXCEPT !.ix = "ixb", !.est = @ + 1] IN
                 Replace(0, [Node("Bitmap Heap Scan", v, <<As("Outer", Node(ty, v, <<one, two>>))>>) EXCEPT !.tab = "t" \o ToString(n), !.al = "b" \o ToString(n)])
Wrap == /\ stack # <<>>
        /\ IF Sys = "pg"
           THEN \E ty \in Pick(Few({"Hash", "Sort", "Materialize", "Memoize", "Aggregate", "Limit", "Unique", "Group", "WindowAgg", "Result", "Incremental Sort", "LockRows", "ProjectSet"}, {"Hash", "Sort"})), v \in Pick(Variants) :
                  Replace(1, Node(ty, v, <<As("Outer", Top)>>))
           ELSE \E ty \in Pick(Few({"PROJECTION", "FILTER", "UNGROUPED_AGGREGATE", "PERFECT_HASH_GROUP_BY", "ORDER_BY", "TOP_N", "HASH_GROUP_BY"}, {"PROJECTION", "TOP_N"})), v \in Pick(Variants) :
                  Replace(1, Node(ty, v, <<Top>>))
Gather == /\ Sys = "pg" /\ stack # <<>>
          /\ \E ty \in Pick(Few({"Gather", "Gather Merge"}, {"Gather"})), v \in Pick(Variants), p \in Pick({0, 1, 2}), all \in Pick({TRUE, FALSE}) :
               Replace(1, [Node(ty, v, <<As("Outer", Top)>>) EXCEPT !.p = p, !.l = IF v = "explain" \/ p = 0 THEN U ELSE IF all THEN p ELSE 1])
Join == /\ Len(stack) > 1
        /\ IF Sys = "pg"
           THEN \E ty \in Pick(Few({"Nested Loop", "Hash Join", "Merge Join"}, {"Hash Join"})), flipped \in Pick({TRUE, FALSE}), v \in Pick(Variants) :
                  LET o == As("Outer", Below) i == As("Inner", Top) IN
                  Replace(2, Node(ty, v, IF flipped THEN <<i, o>> ELSE <<o, i>>))
           ELSE \E ty \in Pick(Few({"HASH_JOIN", "NESTED_LOOP_JOIN", "CROSS_PRODUCT", "UNION"}, {"HASH_JOIN"})), v \in Pick(Variants) :
                  Replace(2, Node(ty, v, <<Below, Top>>))
Union == /\ Sys = "pg" /\ Len(stack) > 1
         /\ \E ty \in Pick(Few({"Append", "Merge Append"}, {"Append"})), v \in Pick(Variants) :
              Replace(2, Node(ty, v, <<As("Member", Below), As("Member", Top)>>))
\* a subquery of the current plan; its own description comes first or last
Subquery == /\ Sys = "pg" /\ Len(stack) > 1
            /\ \E rel \in Pick({"SubPlan", "InitPlan"}), front \in Pick({TRUE, FALSE}) :
                 LET s == [As(rel, Top) EXCEPT !.nm = rel \o " 1"] IN
                 Replace(2, [Below EXCEPT !.kids = IF front THEN <<s>> \o @ ELSE @ \o <<s>>])
Derived == /\ Sys = "pg" /\ stack # <<>>
           /\ \E v \in Pick(Variants) : Replace(1, Node("Subquery Scan", v, <<As("Subquery", Top)>>))
Next == n < MaxOps /\ (Scan \/ BitmapOf \/ Wrap \/ Gather \/ Join \/ Union \/ Subquery \/ Derived)

Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ properties of the import itself *)
Done == Len(stack) = 1
NothingLost == Done => LET q == Import(Top) IN SizeQ(q) = Size(Top) /\ ScannedQ(q) = Scanned(Top)
Emit == (Done /\ (~Sim \/ n >= 3)) => PrintT("@@" \o ToJson([sys |-> Sys, plan |-> Top, want |-> Import(Top)]))
==========================================================================
