------------------------------- MODULE C16 -------------------------------
(* Training of optimization pipelines.  A stage is a record of how many fits *)
(* of each kind complete its training (0: it never asks for that kind), the   *)
(* sample features it asks for, whether it learns online, and how much of its *)
(* training is completed before the pipeline is assembled.  Each operation    *)
(* appends what stages and user observe; cycles of training and benchmarking  *)
(* must neither repeat completed training nor miss required training.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Qs, Kind, NStages, Needs, Feats, Ons, Pre, Ops, Sources, MaxOps, Sim

VARIABLES stages, n, dead, hist
vars == <<stages, n, dead, hist>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Kinds == <<"db", "wl", "sm">>
KindSet == {"db", "wl", "sm"}

\* ------------------------------------------------------------------- samples
DsFeats(d) == CASE d = "d1" -> {"query"} [] d = "d2" -> {"query", "cardinality"} [] d = "d3" -> {"cardinality"} [] d = "d4" -> {"runtime_ms", "cardinality", "query"}
DsRows(d) == CASE d = "d1" -> <<1, 2>> [] d = "d2" -> <<3, 4>> [] d = "d3" -> <<5>> [] d = "d4" -> <<6, 7, 8>>
Feat(x) == CASE x = "q" -> <<"query">> [] x = "qc" -> <<"query", "cardinality">> [] x = "cq" -> <<"cardinality", "query">>
FeatSet(f) == {f[i] : i \in 1..Len(f)}
RECURSIVE Rows(_, _)
Rows(ds, f) == IF ds = <<>> THEN <<>>
               ELSE (IF FeatSet(f) \subseteq DsFeats(Head(ds)) THEN DsRows(Head(ds)) ELSE <<>>) \o Rows(Tail(ds), f)
\* a source is a sequence of data sets; it is passed as repository or (if it is a single data set) directly
SourceSets(s) == CASE s = "none" -> <<>> [] s \in {"d1", "d2", "d3", "d4"} -> <<s>> [] s = "repo" -> <<>> [] s = "repo1" -> <<"d1">>
                   [] s = "repo24" -> <<"d2", "d4">> [] s = "repo1342" -> <<"d1", "d3", "d4", "d2">>
Offer(s, f) == Rows(SourceSets(s), f)

\* -------------------------------------------------------------------- training
I == 1..Len(stages)
Open(k, m) == {i \in I : stages[i][k] > m[i][k]}
Fitted(k, m) == [i \in I |-> IF i \in Open(k, m) THEN [m[i] EXCEPT ![k] = @ + 1] ELSE m[i]]
Fit(k, i, src) == [stage |-> i, rows |-> IF k = "sm" THEN Offer(src, stages[i].feats) ELSE <<>>, feats |-> IF k = "sm" THEN stages[i].feats ELSE <<>>]
Fits(k, m, src) == {Fit(k, i, src) : i \in Open(k, m)}
Lacks(m, src) == \E i \in Open("sm", m) : Offer(src, stages[i].feats) = <<>>
Online == {i \in I : stages[i].on}
NoPhases == [db |-> {}, wl |-> {}, sm |-> {}]
Status(m) == [db |-> \E i \in I : stages[i].db > 0, wl |-> \E i \in I : stages[i].wl > 0, sm |-> \E i \in I : stages[i].sm > 0, on |-> Online # {},
              done |-> Open("sm", m) = {}, open |-> [k \in KindSet |-> Open(k, m)]]

Rec(op, src, qs, out, ph, fb, m) == [op |-> op, src |-> src, qs |-> qs, out |-> out, fits |-> ph, feedback |-> fb, online |-> Online, after |-> Status(m)]
Zero(c) == [i \in 1..Len(c) |-> [k \in KindSet |-> IF c[i].pre THEN c[i][k] ELSE 0]]
Init == stages = <<>> /\ n = <<>> /\ dead = FALSE /\ hist = <<>>
Records == [db : Needs, wl : Needs, sm : Needs, feats : {Feat(x) : x \in Feats}, on : Ons, pre : Pre]
Rnd(x) == [db |-> RandomElement(Needs), wl |-> RandomElement(Needs), sm |-> RandomElement(Needs), feats |-> Feat(RandomElement(Feats)), on |-> RandomElement(Ons), pre |-> RandomElement(Pre)]
Assemble == \E c \in IF Sim THEN {[i \in 1..RandomElement(1..NStages) |-> Rnd(i)]} ELSE [1..NStages -> Records] :
            stages' = c /\ n' = Zero(c) /\ UNCHANGED <<dead, hist>>

Train(k) == \E src \in IF k = "sm" THEN Pick(Sources \ {"none"}) ELSE {"none"} :
            LET bad == k = "sm" /\ Lacks(n, src) IN
            /\ n' = IF bad THEN n ELSE Fitted(k, n)
            /\ dead' = bad
            /\ hist' = Append(hist, Rec(k, src, <<>>, IF bad THEN "missing" ELSE "ok", IF bad THEN NoPhases ELSE [NoPhases EXCEPT ![k] = Fits(k, n, src)], <<>>, n'))
\* feedback handed over by the user
Feedback == /\ n' = n /\ dead' = FALSE
            /\ hist' = Append(hist, Rec("feedback", "none", <<>>, "ok", NoPhases, <<>>, n))
\* the benchmark trains first, then optimizes and executes the queries; failing queries teach nothing
Queries == {CASE x = "oo" -> <<"ok", "ok">> [] x = "ofo" -> <<"ok", "fail", "ok">> [] x = "f" -> <<"fail">> [] x = "osop" -> <<"ok", "slow", "ok", "opt">> : x \in Qs}
Bench == \E src \in Pick(Sources) : \E qs \in Pick(Queries) :
         LET a == Fitted("db", n)  b == Fitted("wl", a)
             bad == Lacks(b, src)
             c == IF src = "none" THEN b ELSE Fitted("sm", b)
         IN /\ n' = IF bad THEN n ELSE c
            /\ dead' = bad
            /\ hist' = Append(hist, Rec("bench", src, qs, IF bad THEN "missing" ELSE "ok",
                                       [db |-> Fits("db", n, src), wl |-> Fits("wl", a, src), sm |-> IF bad THEN {} ELSE Fits("sm", b, src)],
                                       IF Online = {} THEN <<>> ELSE SelectSeq([i \in 1..Len(qs) |-> i], LAMBDA i : qs[i] = "ok"), n'))
Step(o) == CASE o \in KindSet -> Train(o) [] o = "feedback" -> Feedback [] o = "bench" -> Bench
Next == IF stages = <<>> THEN Assemble
        ELSE /\ ~dead /\ Len(hist) < MaxOps
             /\ \E o \in Pick(Ops) : Step(o)
             /\ UNCHANGED stages
Spec == Init /\ [][Next]_vars

\* --------------------------------------------------------------------- the laws
\* training that is complete is never repeated, and stages without a requirement are never trained
NeverTooMuch == \A i \in I : \A k \in KindSet : n[i][k] <= stages[i][k]
\* whatever a stage is trained on offers all it asked for, and all of it
RightSamples == \A e \in FeatSet(hist) : \A f \in e.fits.sm : f.rows # <<>> /\ f.feats = stages[f.stage].feats
\* if a benchmark starts, no sample training is left that has not been attempted
Served == \A j \in 1..Len(hist) : hist[j].op = "bench" /\ hist[j].out = "ok" /\ hist[j].src = "none" => hist[j].after.open["sm"] = {}
Monotone == [][stages # <<>> => \A i \in I : \A k \in KindSet : n'[i][k] \in {n[i][k], n[i][k] + 1}]_vars

Emit == (hist # <<>> /\ (dead \/ Len(hist) = MaxOps)) => PrintT("@@" \o ToJson([kind |-> Kind, stages |-> stages, h |-> hist]))
===========================================================================
