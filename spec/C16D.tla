------------------------------- MODULE C16D -------------------------------
(* The algebra of training data.  A data set is a sequence of features and a *)
(* sequence of rows; the content of a cell is determined by row and feature,  *)
(* never by the name of the column it is stored in.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Layouts, MaxOps, Sim, Width

VARIABLES pool, repo, next, hist
vars == <<pool, repo, next, hist>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

Features == {"query", "cardinality", "runtime_ms"}
RECURSIVE Perms(_)
Perms(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o p : p \in Perms(S \ {x})} : x \in S}
Specs == UNION {Perms(S) : S \in {T \in SUBSET Features : T # {} /\ Cardinality(T) <= Width}}
Elems(s) == {s[i] : i \in 1..Len(s)}
Sat(d, f) == Elems(f) \subseteq Elems(d.feats)
DS(f, r) == [feats |-> f, rows |-> r]
RECURSIVE Cat(_)
Cat(ds) == IF ds = <<>> THEN <<>> ELSE Head(ds).rows \o Cat(Tail(ds))
Range(k, m) == [i \in 1..m |-> k + i - 1]

I == 1..Len(pool)
Rec(op, args, spec, out, lay, sets) == [op |-> op, args |-> args, spec |-> spec, out |-> out, layout |-> lay, sets |-> sets, pool |-> pool']
Grow(op, args, spec, ok, d) == /\ pool' = IF ok THEN Append(pool, d) ELSE pool
                               /\ hist' = Append(hist, Rec(op, args, spec, IF ok THEN "ok" ELSE "error", "none", <<>>))
Look(op, args, spec, sets) == pool' = pool /\ hist' = Append(hist, Rec(op, args, spec, "ok", "none", sets))

Init == pool = <<>> /\ repo = <<>> /\ next = 1 /\ hist = <<>>
Create == \E f \in Pick(Specs) : \E m \in Pick(0..2) : \E l \in Pick(Layouts) :
          /\ pool' = Append(pool, DS(f, Range(next, m)))
          /\ next' = next + m /\ repo' = repo
          /\ hist' = Append(hist, Rec("create", <<m>>, f, "ok", l, <<>>))
Conform == \E i \in Pick(I) : \E f \in Pick(Specs) : Grow("conform", <<i>>, f, Sat(pool[i], f), DS(f, pool[i].rows)) /\ UNCHANGED <<repo, next>>
Frame == \E i \in Pick(I) : \E f \in Pick(Specs) :
         /\ pool' = pool /\ UNCHANGED <<repo, next>>
         /\ hist' = Append(hist, Rec("frame", <<i>>, f, IF Sat(pool[i], f) THEN "ok" ELSE "error", "none", IF Sat(pool[i], f) THEN <<DS(f, pool[i].rows)>> ELSE <<>>))
MergeWith == \E i \in Pick(I) : \E j \in Pick(I) :
             Grow("merge_with", <<i, j>>, pool[i].feats, Sat(pool[j], pool[i].feats), DS(pool[i].feats, pool[i].rows \o pool[j].rows)) /\ UNCHANGED <<repo, next>>
Merge == \E i \in Pick(I) : \E j \in Pick(I) : \E k \in Pick(I) : \E f \in Pick(Specs) :
         Grow("merge", <<i, j, k>>, f, Sat(pool[i], f) /\ Sat(pool[j], f) /\ Sat(pool[k], f), DS(f, pool[i].rows \o pool[j].rows \o pool[k].rows)) /\ UNCHANGED <<repo, next>>
Register == \E i \in Pick(I) : /\ repo' = Append(repo, i) /\ pool' = pool /\ next' = next
                               /\ hist' = Append(hist, Rec("register", <<i>>, <<>>, "ok", "none", <<>>))
Match(f) == LET m == SelectSeq(repo, LAMBDA i : Sat(pool[i], f)) IN [k \in 1..Len(m) |-> DS(f, pool[m[k]].rows)]
Retrieve == \E how \in Pick({"first", "all", "merged"}) : \E f \in Pick(Specs) :
            LET m == Match(f) IN
            /\ UNCHANGED <<repo, next>>
            /\ Look(how, <<>>, f, IF m = <<>> THEN <<>> ELSE CASE how = "first" -> <<m[1]>> [] how = "all" -> m [] how = "merged" -> <<DS(f, Cat(m))>>)
Compare == \E f \in Pick(Specs) : \E g \in Pick(Specs) :
           /\ pool' = pool /\ UNCHANGED <<repo, next>>
           /\ hist' = Append(hist, Rec("compare", <<f, g>>, f, IF Elems(g) \subseteq Elems(f) THEN "ok" ELSE "error", "none", <<>>))

Next == /\ Len(hist) < MaxOps
        /\ \E o \in IF Sim THEN {IF pool = <<>> THEN 1 ELSE RandomElement({1, 1, 2, 3, 4, 5, 6, 7, 8} \cup 1..8)} ELSE 1..8 :
             IF pool = <<>> THEN o = 1 /\ Create
             ELSE CASE o = 1 -> Create [] o = 2 -> Conform [] o = 3 -> Frame [] o = 4 -> MergeWith [] o = 5 -> Merge [] o = 6 -> Register [] o = 7 -> repo # <<>> /\ Retrieve [] o = 8 -> Sim /\ Compare
Spec == Init /\ [][Next]_vars

\* data sets never change, and rows never appear from nowhere
Immutable == [][\A i \in I : pool'[i] = pool[i]]_vars
KnownRows == \A i \in I : Elems(pool[i].rows) \subseteq 1..(next - 1)
\* retrieval returns the requested features in the requested order
Exact == \A e \in Elems(hist) : e.op \in {"first", "all", "merged", "frame"} => \A d \in Elems(e.sets) : d.feats = e.spec
\* merging everything that matches preserves all rows of all matches
Complete == \A f \in IF Sim THEN {} ELSE Specs : Len(Cat(Match(f))) = LET m == SelectSeq(repo, LAMBDA i : Sat(pool[i], f)) IN
                                                  IF m = <<>> THEN 0 ELSE Len(Cat([k \in 1..Len(m) |-> pool[m[k]]]))
Emit == Len(hist) = MaxOps => PrintT("@@" \o ToJson([h |-> hist]))
===========================================================================
