------------------------------- MODULE C09 -------------------------------
(* Operator assignments and plan parameters as pools of keyed stores.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, ScanOps, JoinOps, InterOps, Workers, Cards, Names, MaxLen, MaxPool, Sim

VARIABLES ops, pars, h
vars == <<ops, pars, h>>

T == 1..N
Keys == SUBSET T \ {{}}
JoinKeys == {K \in Keys : Cardinality(K) >= 2}
AllOps == ScanOps \cup JoinOps \cup InterOps
Modes == {"sequential", "parallel"}

No == [op |-> "none", w |-> 0, dir |-> FALSE, outer |-> {}]
NewO == [glob |-> [o \in AllOps |-> "unset"], scan |-> [t \in T |-> No], join |-> [K \in JoinKeys |-> No], inter |-> [K \in Keys |-> "none"]]
NewP == [card |-> [K \in Keys |-> -1], work |-> [K \in Keys |-> 0], sys |-> [n \in Names |-> "unset"], mode |-> "none"]

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

(* ---------------------------------------------------------------- semantics *)
Over(f, g, empty(_)) == [k \in DOMAIN f |-> IF empty(g[k]) THEN f[k] ELSE g[k]]
NoEntry(e) == e.op = "none"
NoName(s) == s \in {"none", "unset"}
NoCard(c) == c = -1
NoWork(w) == w = 0
MergeO(a, b) == [glob |-> Over(a.glob, b.glob, NoName), scan |-> Over(a.scan, b.scan, NoEntry),
                 join |-> Over(a.join, b.join, NoEntry), inter |-> Over(a.inter, b.inter, NoName)]
MergeP(a, b) == [card |-> Over(a.card, b.card, NoCard), work |-> Over(a.work, b.work, NoWork),
                 sys |-> Over(a.sys, b.sys, NoName), mode |-> IF b.mode = "none" THEN a.mode ELSE b.mode]
\* disabling an operator with overwriting drops exactly the nodes that were to use it
SetGlobal(a, o, on, over) ==
  LET drop == over /\ ~on IN
  [glob |-> [a.glob EXCEPT ![o] = IF on THEN "on" ELSE "off"],
   scan |-> [t \in T |-> IF drop /\ a.scan[t].op = o THEN No ELSE a.scan[t]],
   join |-> [K \in JoinKeys |-> IF drop /\ a.join[K].op = o THEN No ELSE a.join[K]],
   inter |-> [K \in Keys |-> IF drop /\ a.inter[K] = o THEN "none" ELSE a.inter[K]]]
Single(K) == CHOOSE t \in T : K = {t}
Entry(a, K) == IF Cardinality(K) = 1 THEN a.scan[Single(K)] ELSE a.join[K]
Missing(a, p) == \E K \in Keys : p.work[K] # 0 /\ Entry(a, K).op = "none"
NewWorkers(e, w) == IF e.op = "none" \/ w = 0 THEN e ELSE [e EXCEPT !.w = w]
Integrate(a, p) == [a EXCEPT !.scan = [t \in T |-> NewWorkers(a.scan[t], p.work[{t}])],
                             !.join = [K \in JoinKeys |-> NewWorkers(a.join[K], p.work[K])]]

O == 1..Len(ops)
P == 1..Len(pars)
ShowO(a) == [glob |-> a.glob, scan |-> {[k |-> {t}, e |-> a.scan[t]] : t \in {t \in T : a.scan[t].op # "none"}},
             join |-> {[k |-> K, e |-> a.join[K]] : K \in {K \in JoinKeys : a.join[K].op # "none"}},
             inter |-> {[k |-> K, e |-> a.inter[K]] : K \in {K \in Keys : a.inter[K] # "none"}},
             on |-> {o \in AllOps : a.glob[o] = "on"}, notoff |-> {o \in AllOps : a.glob[o] # "off"}]
ShowP(p) == [card |-> {[k |-> K, e |-> p.card[K]] : K \in {K \in Keys : p.card[K] # -1}},
             work |-> {[k |-> K, e |-> p.work[K]] : K \in {K \in Keys : p.work[K] # 0}}, sys |-> p.sys, mode |-> p.mode]

(* ------------------------------------------------------------------ actions *)
Log(op, i, args, r) == h' = Append(h, [op |-> op, on |-> i, args |-> args, res |-> r])
PutO(op, i, args, r) == ops' = [ops EXCEPT ![i] = r] /\ UNCHANGED pars /\ Log(op, i, args, <<"o", i, ShowO(r)>>)
PutP(op, i, args, r) == pars' = [pars EXCEPT ![i] = r] /\ UNCHANGED ops /\ Log(op, i, args, <<"p", i, ShowP(r)>>)
NewInO(op, i, args, r) == Len(ops) < MaxPool /\ ops' = Append(ops, r) /\ UNCHANGED pars /\ Log(op, i, args, <<"o", Len(ops) + 1, ShowO(r)>>)
NewInP(op, i, args, r) == Len(pars) < MaxPool /\ pars' = Append(pars, r) /\ UNCHANGED ops /\ Log(op, i, args, <<"p", Len(pars) + 1, ShowP(r)>>)

ScanPlain == \E i \in Pick(O), t \in Pick(T), o \in Pick(ScanOps), r \in Pick({"add", "set", "add_list", "set_list"}) :
    PutO("scan_plain", i, <<t, o, r>>, [ops[i] EXCEPT !.scan[t] = [No EXCEPT !.op = o]])
ScanFull == \E i \in Pick(O), t \in Pick(T), o \in Pick(ScanOps), w \in Pick({0} \cup Workers), r \in Pick({"add", "set"}) :
    PutO("scan_full", i, <<t, o, w, r>>, [ops[i] EXCEPT !.scan[t] = [No EXCEPT !.op = o, !.w = w]])
JoinPlain == \E i \in Pick(O), K \in Pick(JoinKeys), o \in Pick(JoinOps), r \in Pick({"add", "set", "add_rev", "set_rev"}) :
    PutO("join_plain", i, <<K, o, r>>, [ops[i] EXCEPT !.join[K] = [No EXCEPT !.op = o]])
JoinFull == \E i \in Pick(O), K \in Pick(JoinKeys), o \in Pick(JoinOps), w \in Pick({0} \cup Workers), r \in Pick({"add", "set"}) :
    PutO("join_full", i, <<K, o, w, r>>, [ops[i] EXCEPT !.join[K] = [No EXCEPT !.op = o, !.w = w]])
JoinDir == \E i \in Pick(O), K \in Pick(JoinKeys), o \in Pick(JoinOps), w \in Pick({0} \cup Workers) : \E X \in Pick({X \in Keys : X \subseteq K /\ X # K}) :
    PutO("join_dir", i, <<K, o, w, X>>, [ops[i] EXCEPT !.join[K] = [op |-> o, w |-> w, dir |-> TRUE, outer |-> X]])
Inter == \E i \in Pick(O), K \in Pick(Keys), o \in Pick(InterOps), r \in Pick({"add", "set"}) :
    PutO("inter", i, <<K, o, r>>, [ops[i] EXCEPT !.inter[K] = o])
Global == \E i \in Pick(O), o \in Pick(AllOps), on \in Pick(BOOLEAN), over \in Pick(BOOLEAN) :
    PutO("global", i, <<o, on, over>>, SetGlobal(ops[i], o, on, over))
MakeO == NewInO("new_ops", 0, <<>>, NewO)
CloneO == \E i \in Pick(O) : NewInO("clone", i, <<>>, ops[i])
GlobalOnly == \E i \in Pick(O) : NewInO("global_only", i, <<>>, [NewO EXCEPT !.glob = ops[i].glob])
MergeOps == \E i \in Pick(O), j \in Pick(O) : NewInO("merge", i, <<j>>, MergeO(ops[i], ops[j]))
Workers_ == \E i \in Pick(O), p \in Pick(P), f \in Pick(BOOLEAN) :
    IF f /\ Missing(ops[i], pars[p]) THEN UNCHANGED <<ops, pars>> /\ Log("integrate", i, <<p, f>>, <<"error", 0, 0>>)
    ELSE NewInO("integrate", i, <<p, f>>, Integrate(ops[i], pars[p]))

MakeP == NewInP("new_pars", 0, <<>>, NewP)
Card == \E i \in Pick(P), K \in Pick(Keys), c \in Pick(Cards) : PutP("card", i, <<K, c>>, [pars[i] EXCEPT !.card[K] = c])
SetWorkers == \E i \in Pick(P), K \in Pick(Keys), w \in Pick(Workers) : PutP("workers", i, <<K, w>>, [pars[i] EXCEPT !.work[K] = w])
System == \E i \in Pick(P), n \in Pick(Names), v \in Pick({"a", "b"}), r \in Pick({"pair", "kwargs"}) :
    PutP("system", i, <<n, v, r>>, [pars[i] EXCEPT !.sys[n] = v])
System2 == \E i \in Pick(P), v \in Pick({"a", "b"}) : PutP("system_all", i, <<v>>, [pars[i] EXCEPT !.sys = [n \in Names |-> v]])
Mode == \E i \in Pick(P), m \in Pick(Modes) : PutP("mode", i, <<m>>, [pars[i] EXCEPT !.mode = m])
MergePars == \E i \in Pick(P), j \in Pick(P) : NewInP("merge_pars", i, <<j>>, MergeP(pars[i], pars[j]))
DropWorkers == \E i \in Pick(P) : NewInP("drop_workers", i, <<>>, [pars[i] EXCEPT !.work = [K \in Keys |-> 0]])

Init == ops = <<NewO>> /\ pars = <<NewP>> /\ h = <<>>
Next == /\ Len(h) < MaxLen
        /\ \E k \in Pick(1..(IF Sim THEN 26 ELSE 20)) :
             \/ (k = 1 /\ ScanPlain) \/ (k = 2 /\ ScanFull) \/ (k = 3 /\ JoinPlain) \/ (k = 4 /\ JoinFull)
             \/ (k = 5 /\ JoinDir) \/ (k = 6 /\ Inter) \/ (k \in {7, 21, 22} /\ Global) \/ (k = 8 /\ MakeO)
             \/ (k = 9 /\ CloneO) \/ (k = 10 /\ GlobalOnly) \/ (k = 11 /\ MergeOps) \/ (k \in {12, 23} /\ Workers_)
             \/ (k = 13 /\ MakeP) \/ (k = 14 /\ Card) \/ (k \in {15, 24, 25} /\ SetWorkers) \/ (k = 16 /\ System)
             \/ (k = 17 /\ System2) \/ (k = 18 /\ Mode) \/ (k = 19 /\ MergePars) \/ (k = 20 /\ DropWorkers)
             \/ (Sim /\ k = 26 /\ ScanFull) \/ (Sim /\ Len(ops) = MaxPool /\ Global)
Spec == Init /\ [][Next]_vars

Emit == Len(h) = MaxLen => PrintT("@@" \o ToJson([h |-> h, ops |-> [i \in O |-> ShowO(ops[i])], pars |-> [i \in P |-> ShowP(pars[i])],
                        eq |-> {q \in O \X O : ops[q[1]] = ops[q[2]]}]))
----------------------------------------------------------------------------
(* laws of the stores *)
MergeLaws == \A i, j \in O : /\ MergeO(MergeO(ops[i], ops[j]), ops[j]) = MergeO(ops[i], ops[j])
                             /\ MergeO(ops[i], NewO) = ops[i] /\ MergeO(NewO, ops[i]) = ops[i]
                             /\ \A k \in O : MergeO(MergeO(ops[i], ops[j]), ops[k]) = MergeO(ops[i], MergeO(ops[j], ops[k]))
OverwriteLaw == \A i \in O, o \in AllOps : LET r == SetGlobal(ops[i], o, FALSE, TRUE) IN
                   (\A t \in T : r.scan[t].op # o) /\ (\A K \in JoinKeys : r.join[K].op # o) /\ (\A K \in Keys : r.inter[K] # o)
OneStore == [][\A i \in O : SubSeq(h'[Len(h')].res, 1, 2) # <<"o", i>> => ops'[i] = ops[i]]_vars /\ [][\A i \in P : SubSeq(h'[Len(h')].res, 1, 2) # <<"p", i>> => pars'[i] = pars[i]]_vars
==========================================================================
