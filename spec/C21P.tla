------------------------------- MODULE C21P -------------------------------
(* Parallel execution: queries are queued, up to K of them run at the same     *)
(* time (first come, first served), they finish in any order, and draining     *)
(* the queue delivers what was not delivered before.                           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json

CONSTANTS K, NQ, MaxOps, Sim

VARIABLES queue, fin, given, hist, done
vars == <<queue, fin, given, hist, done>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Kinds == {"ok", "empty", "error", "timeout", "cancelled"}

Ids == 1..Len(queue)
Unfinished == Ids \ fin
\* the first K unfinished queries have a thread
Running == {i \in Unfinished : Cardinality({j \in Unfinished : j < i}) < K}
Errors(S) == {i \in S : queue[i].kind \in {"error", "cancelled"}}
Sorted(S) == SetToSortSeq(S, <)
Blank == [op |-> "", id |-> 0, text |-> 0, kind |-> "", callback |-> FALSE, order |-> <<>>, good |-> <<>>, bad |-> <<>>, waits |-> FALSE, total |-> <<>>]
Log(r) == hist' = Append(hist, r)

Init == queue = <<>> /\ fin = {} /\ given = {} /\ hist = <<>> /\ done = FALSE
Queue == /\ Len(queue) < NQ
         /\ \E k \in IF Sim THEN {RandomElement({<<1, "ok">>, <<2, "ok">>, <<3, "empty">>, <<4, "error">>, <<5, "timeout">>, <<6, "cancelled">>})[2]} ELSE Kinds :
              /\ queue' = Append(queue, [kind |-> k])
              /\ Log([Blank EXCEPT !.op = "queue", !.id = Len(queue) + 1, !.kind = k])
         /\ UNCHANGED <<fin, given, done>>
Finish == /\ Running # {}
          /\ \E i \in Pick(Running) : fin' = fin \cup {i} /\ Log([Blank EXCEPT !.op = "finish", !.id = i, !.kind = queue[i].kind])
          /\ UNCHANGED <<queue, given, done>>
Delivered(S, cb, order, waits) ==
    [Blank EXCEPT !.op = "drain", !.callback = cb, !.order = order, !.good = Sorted(S \ Errors(S)), !.bad = Sorted(Errors(S)), !.waits = waits,
                  !.total = Sorted((given \cup S) \ Errors(given \cup S))]
\* with a time limit that ends before the running queries do
Poll == /\ \E cb \in Pick(BOOLEAN) : Log(Delivered(fin \ given, cb, <<>>, Unfinished # {}))
        /\ given' = fin /\ UNCHANGED <<queue, fin, done>>
RECURSIVE Orders(_, _)
\* all orders in which the unfinished queries may end
Orders(open, k) == IF open = {} THEN {<<>>}
    ELSE UNION {{<<i>> \o r : r \in Orders(open \ {i}, k)} : i \in {i \in open : Cardinality({j \in open : j < i}) < k}}
RECURSIVE RandomOrder(_)
RandomOrder(open) == IF open = {} THEN <<>> ELSE LET i == RandomElement({i \in open : Cardinality({j \in open : j < i}) < K}) IN <<i>> \o RandomOrder(open \ {i})
Drain == /\ \E cb \in Pick(BOOLEAN) : \E o \in IF Sim THEN {RandomOrder(Unfinished)} ELSE Orders(Unfinished, K) :
              Log(Delivered(Ids \ given, cb, o, FALSE))
         /\ fin' = Ids /\ given' = Ids /\ UNCHANGED <<queue, done>>
Step == /\ ~done /\ Len(hist) < MaxOps
        /\ \E c \in Pick(1..8) : CASE c \in {1, 2, 3} -> Queue [] c \in {4, 5} -> IF Running = {} THEN Queue ELSE Finish [] c = 6 -> Poll [] c \in {7, 8} -> IF c = 8 /\ Sim THEN Queue ELSE Drain
End == /\ ~done /\ (Len(hist) = MaxOps \/ (Sim /\ Len(queue) = NQ)) /\ done' = TRUE
       /\ PrintT("@@" \o ToJson(Append(hist, Delivered(Ids \ given, TRUE, Sorted(Unfinished), FALSE))))
       /\ UNCHANGED <<queue, fin, given, hist>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars

\* every query is delivered at most once, and everything that was delivered had finished
Drains == {i \in 1..Len(hist) : hist[i].op = "drain"}
Got(i) == ToSet(hist[i].good) \cup ToSet(hist[i].bad)
Once == \A i, j \in Drains : i # j => Got(i) \cap Got(j) = {}
Known == given \subseteq fin /\ UNION {Got(i) : i \in Drains} = given
Bounded == Cardinality(Running) <= K
=============================================================================
