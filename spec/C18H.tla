------------------------------- MODULE C18H -------------------------------
(* Most common value lists and histograms as values.  A histogram has upper   *)
(* bounds b[1] < b[2] < ..., a lower bound lo <= b[1] and a number of rows for *)
(* every bucket; lookups are answered for points on a grid twice as fine as   *)
(* the bounds.  Interpolated answers are fractions num / den.                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json

CONSTANTS N, MaxFreq, Kind

VARIABLES phase, case
vars == <<phase, case>>

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Points == 1..(2 * N + 1)          \* point 2v is value v
Blank == [kind |-> "", lo |-> 0, bounds |-> <<>>, freqs |-> <<>>, looks |-> <<>>, mcv |-> <<>>, sorted |-> <<>>, of |-> <<>>]

Rows(f, i) == Sum(SubSeq(f, 1, i))
\* the bucket of point p: the first one whose upper bound is not smaller
Bucket(b, p) == IF \A i \in 1..Len(b) : 2 * b[i] < p THEN Len(b) + 1 ELSE Min({i \in 1..Len(b) : 2 * b[i] >= p})
Below(lo, b, f, p, strategy) ==
    LET i == Bucket(b, p)
        from == IF i = 1 THEN lo ELSE b[i - 1] IN
    IF p < 2 * lo THEN [num |-> 0, den |-> 1]
    ELSE IF i > Len(b) THEN [num |-> Sum(f), den |-> 1]
    ELSE IF 2 * b[i] = p \/ strategy = "bound" THEN [num |-> Rows(f, i), den |-> 1]
    ELSE [num |-> Rows(f, i - 1) * 2 * (b[i] - from) + (p - 2 * from) * f[i], den |-> 2 * (b[i] - from)]
\* the larger values; conservative means that the whole bucket is counted
Above(lo, b, f, p, strategy) ==
    LET i == Bucket(b, p)
        x == Below(lo, b, f, p, strategy) IN
    IF p < 2 * lo THEN [num |-> Sum(f), den |-> 1]
    ELSE IF i > Len(b) THEN [num |-> 0, den |-> 1]
    ELSE IF strategy = "bound" /\ 2 * b[i] # p THEN [num |-> Sum(f) - Rows(f, i - 1), den |-> 1]
    ELSE [num |-> Sum(f) * x.den - x.num, den |-> x.den]

Histogram == \E B \in SUBSET (1..N) : \E lo \in 1..N :
    /\ B # {} /\ lo <= Min(B)
    /\ LET b == SetToSortSeq(B, <) IN
       \E f \in [1..Len(b) -> 1..MaxFreq] :
         case' = [Blank EXCEPT !.kind = "histogram", !.lo = lo, !.bounds = b, !.freqs = f,
                  !.looks = [p \in Points |-> [below |-> Below(lo, b, f, p, "approx-uni"), above |-> Above(lo, b, f, p, "approx-uni"),
                                              maxbelow |-> Below(lo, b, f, p, "bound").num, maxabove |-> Above(lo, b, f, p, "bound").num]]]

\* a list of distinct values with frequencies, in any order
Mcv == \E B \in SUBSET (1..N) : \E b \in SetToAllKPermutations(B) : Len(b) = Cardinality(B) /\
       \E f \in [1..Len(b) -> 1..MaxFreq] :
         LET given == [i \in 1..Len(b) |-> [value |-> b[i], n |-> f[i]]]
             sorted == SortSeq(given, LAMBDA x, y : x.n > y.n \/ (x.n = y.n /\ x.value > y.value)) IN
         case' = [Blank EXCEPT !.kind = "mcv", !.mcv = given, !.sorted = sorted,
                  !.of = [v \in 1..N |-> IF v \in B THEN f[CHOOSE i \in 1..Len(b) : b[i] = v] ELSE 0]]

Init == phase = "choose" /\ case = Blank
Next == \/ phase = "choose" /\ phase' = "done" /\ (IF Kind = "histogram" THEN Histogram ELSE Mcv)
        \/ phase = "done" /\ phase' = "end" /\ PrintT("@@" \o ToJson(case)) /\ UNCHANGED case
Spec == Init /\ [][Next]_vars

Less(x, y) == x.num * y.den <= y.num * x.den
Sound == phase = "done" /\ case.kind = "histogram" =>
    /\ \A p \in Points : /\ Less(case.looks[p].below, [num |-> case.looks[p].maxbelow, den |-> 1])
                         /\ Less(case.looks[p].above, [num |-> case.looks[p].maxabove, den |-> 1])
                         /\ case.looks[p].maxbelow + case.looks[p].maxabove >= Sum(case.freqs)
    /\ \A p \in 2..(2 * N + 1) : /\ Less(case.looks[p - 1].below, case.looks[p].below)
                                 /\ Less(case.looks[p].above, case.looks[p - 1].above)
                                 /\ case.looks[p - 1].maxbelow <= case.looks[p].maxbelow
    /\ \A i \in 1..Len(case.bounds) : case.looks[2 * case.bounds[i]].maxbelow = Rows(case.freqs, i)
Sorted == phase = "done" => \A i \in 1..(Len(case.sorted) - 1) : case.sorted[i].n >= case.sorted[i + 1].n
=============================================================================
