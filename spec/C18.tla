------------------------------- MODULE C18 -------------------------------
(* Emulated statistics.  Tables are sequences of rows over two columns; 0 is   *)
(* NULL and 1..V are the values in ascending order.  A session asks for       *)
(* statistics, with emulation and caching requested per call or configured    *)
(* for the statistics interface; whatever the configuration, the answer is    *)
(* the statistic of the data.                                                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json

CONSTANTS V, MaxRows, MaxOps, Native, Sim

VARIABLES phase, rows, conf, hist
vars == <<phase, rows, conf, hist>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
T == 1..2
C == 1..2
Val == 0..V

Cell(r, c) == r[c]
Freq(t, c, v) == Cardinality({i \in 1..Len(rows[t]) : Cell(rows[t][i], c) = v})
Present(t, c) == {v \in 1..V : Freq(t, c, v) > 0}
Cum(t, c, v) == Cardinality({i \in 1..Len(rows[t]) : Cell(rows[t][i], c) \in 1..v})

NoAnswer == [kind |-> "refused", num |-> 0, lo |-> 0, hi |-> 0, list |-> <<>>, cum |-> <<>>]
Answer(t, c, stat, k) ==
    LET P == Present(t, c)
        lo == IF P = {} THEN 0 ELSE Min(P)
        hi == IF P = {} THEN 0 ELSE Max(P)
        ordered == SetToSortSeq(P, LAMBDA a, b : Freq(t, c, a) > Freq(t, c, b) \/ (Freq(t, c, a) = Freq(t, c, b) /\ a > b))
        top == IF k <= 0 \/ k > Len(ordered) THEN ordered ELSE SubSeq(ordered, 1, k)
        A == [NoAnswer EXCEPT !.kind = "answer"] IN
    CASE stat = "rows" -> [A EXCEPT !.num = Len(rows[t])]
      [] stat = "distinct" -> [A EXCEPT !.num = Cardinality(P)]
      [] stat = "minmax" -> [A EXCEPT !.lo = lo, !.hi = hi]
      [] stat = "mcv" -> [A EXCEPT !.list = [i \in 1..Len(top) |-> [value |-> top[i], n |-> Freq(t, c, top[i])]]]
      [] stat = "histogram" -> [A EXCEPT !.lo = lo, !.hi = hi, !.cum = [v \in 1..V |-> Cum(t, c, v)]]

Stats == {"rows", "distinct", "minmax", "mcv", "histogram"}
Ks(stat) == CASE stat = "mcv" -> (-1)..(V + 2) [] stat = "histogram" -> 0..(MaxRows + 2) [] OTHER -> {0}
Blank == [op |-> "", tab |-> 0, col |-> 0, stat |-> "", k |-> 0, emulated |-> "default", cache |-> "default", field |-> "", val |-> FALSE, ans |-> NoAnswer]

Emulated(em) == em = "on" \/ (em = "default" /\ conf.emulated)
\* the native statistics of this system are only available by emulation; equi-depth histograms need a number of buckets
Reply(t, c, stat, k, em) ==
    IF ~Emulated(em) THEN IF stat = "histogram" /\ conf.fallback THEN [Answer(t, c, stat, k) EXCEPT !.num = 100]
                          ELSE IF stat = "rows" \/ conf.fallback THEN Answer(t, c, stat, k) ELSE NoAnswer
    ELSE IF stat = "histogram" THEN IF k = 0 THEN NoAnswer ELSE [Answer(t, c, stat, k) EXCEPT !.num = k]
    ELSE Answer(t, c, stat, k)

Init == /\ phase = "choose" /\ hist = <<>>
        /\ rows = [t \in T |-> <<>>]
        /\ conf = [emulated |-> TRUE, fallback |-> TRUE, cache |-> TRUE]

Bags == {b \in [Val -> 0..3] : MapThenSumSet(LAMBDA v : b[v], Val) <= MaxRows}
RowsOf(b) == FoldSet(LAMBDA v, s : s \o [i \in 1..b[v] |-> <<v, (v + i) % (V + 1)>>], <<>>, Val)
Requests == {r \in T \X C \X Stats \X ((-1)..(MaxRows + V + 2)) : r[4] \in Ks(r[3]) /\ (r[3] = "rows" => r[2] = 1)}

Choose == /\ phase = "choose" /\ phase' = "run" /\ UNCHANGED hist
          /\ UNCHANGED conf
          /\ IF Sim THEN \E n \in Pick(0..MaxRows) : \E m \in Pick(0..MaxRows) : \E w \in Pick(0..1) :
                           rows' = [t \in T |-> [i \in 1..(IF t = 1 THEN n ELSE m) |-> <<IF w = 1 /\ i % 2 = 0 THEN 0 ELSE RandomElement(Val), RandomElement(Val)>>]]
             ELSE \E b \in Bags : rows' = [t \in T |-> IF t = 1 THEN RowsOf(b) ELSE SubSeq(RowsOf(b), 2, Len(RowsOf(b)))]

\* every request once
Everything == /\ ~Sim /\ phase = "run" /\ phase' = "done" /\ UNCHANGED <<rows, conf>>
              /\ LET todo == SetToSeq(Requests) IN
                 hist' = [i \in 1..Len(todo) |-> LET r == todo[i] IN
                            [Blank EXCEPT !.op = "ask", !.tab = r[1], !.col = r[2], !.stat = r[3], !.k = r[4], !.ans = Reply(r[1], r[2], r[3], r[4], "default")]]

Modes == {"default", "on", "off"}
Ask == /\ \E t \in Pick(T) : \E c \in Pick(C) : \E stat \in Pick(Stats) : \E k \in Pick(Ks(stat)) : \E em \in Pick(IF Native THEN Modes ELSE {"default", "on"}) : \E ca \in Pick(Modes) :
            hist' = Append(hist, [Blank EXCEPT !.op = "ask", !.tab = t, !.col = c, !.stat = stat, !.k = k, !.emulated = em, !.cache = ca, !.ans = Reply(t, c, stat, k, em)])
       /\ UNCHANGED conf
Configure == /\ \E f \in Pick(IF Native THEN {"emulated", "fallback", "cache", "db"} ELSE {"cache", "db"}) : \E x \in Pick(BOOLEAN) :
                  /\ conf' = IF f = "db" THEN conf ELSE [conf EXCEPT ![f] = x]
                  /\ hist' = Append(hist, [Blank EXCEPT !.op = "set", !.field = f, !.val = x])
Reset == /\ hist' = Append(hist, [Blank EXCEPT !.op = "reset"]) /\ UNCHANGED conf

Step == /\ Sim /\ phase = "run" /\ UNCHANGED <<rows, phase>>
        /\ IF Len(hist) < MaxOps THEN \E c \in Pick(1..6) : CASE c <= 4 -> Ask [] c = 5 -> Configure [] OTHER -> IF Len(hist) % 3 = 0 THEN Reset ELSE Configure
           ELSE FALSE
Finish == /\ Sim /\ phase = "run" /\ Len(hist) = MaxOps /\ phase' = "done" /\ UNCHANGED <<rows, conf, hist>>
Emit == /\ phase = "done" /\ phase' = "end" /\ PrintT("@@" \o ToJson([rows |-> [t \in T |-> rows[t]], steps |-> hist, native |-> Native])) /\ UNCHANGED <<rows, conf, hist>>
Next == Choose \/ Everything \/ Step \/ Finish \/ Emit
Spec == Init /\ [][Next]_vars

Asked == {i \in 1..Len(hist) : hist[i].op = "ask" /\ hist[i].ans.kind = "answer"}
\* whatever was configured: the same question gets the same answer
Stable == phase = "done" => \A i, j \in Asked : (hist[i].tab = hist[j].tab /\ hist[i].col = hist[j].col /\ hist[i].stat = hist[j].stat /\ hist[i].k = hist[j].k) => (hist[i].ans = hist[j].ans \/ (hist[i].stat = "histogram" /\ [hist[i].ans EXCEPT !.num = 0] = [hist[j].ans EXCEPT !.num = 0]))
\* the statistics of a column fit together
Consistent == phase = "done" => \A t \in T, c \in C :
    LET all == Answer(t, c, "mcv", 0).list  n == Len(rows[t])  h == Answer(t, c, "histogram", 1) IN
    /\ Len(all) = Answer(t, c, "distinct", 0).num
    /\ FoldLeft(LAMBDA s, e : s + e.n, 0, all) + Freq(t, c, 0) = n
    /\ \A i \in 1..(Len(all) - 1) : all[i].n >= all[i + 1].n
    /\ h.cum[V] = n - Freq(t, c, 0)
    /\ \A v \in 2..V : h.cum[v] >= h.cum[v - 1]
    /\ (h.lo = 0) = (all = <<>>)
    /\ h.lo # 0 => h.cum[h.lo] > 0 /\ h.cum[h.hi] = h.cum[V]
=============================================================================
