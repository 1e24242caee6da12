------------------------------- MODULE C14 -------------------------------
(* The optimization pipelines as state machines.  A configuration assigns a  *)
(* stage to each slot; a stage is a record of its type t and its behaviour b: *)
(*   ok      works on everything          nodb2   rejects database d2         *)
(*   noq2    rejects query q2             failq3  raises on query q3          *)
(*   noq2d2  rejects q2 and d2                                                *)
(* Every operation appends what the user has to observe to the history:       *)
(* outcome, stage runs with the decisions they received, and the hints.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kind, Behav, MaxOps, Sim, Modes, MaxSteps, Vias, Loads

VARIABLES cfg, steps, db, built, hist
vars == <<cfg, steps, db, built, hist>>

None == [t |-> "none", b |-> "ok"]
Slots == CASE Kind = "integrated" -> <<"algo">>
           [] Kind = "textbook" -> <<"enum", "cost", "card">>
           [] Kind = "multi" -> <<"check", "join", "ops", "par">>
           [] Kind = "incremental" -> <<"gen">>
Types(s) == CASE s = "algo" -> {"algo", "join*", "ops*", "par*", "est*"}     \* starred: wrapped by as_complete_algorithm
              [] s = "enum" -> {"enum", "dp"}
              [] s = "par" -> {"par", "est"}
              [] s = "gen" -> {"algo", "join*", "est*"}
              [] OTHER -> {s}
SlotSet == {Slots[i] : i \in 1..Len(Slots)}
Stages(s) == {[t |-> t, b |-> b] : t \in Types(s), b \in IF s = "check" THEN Behav \ {"failq3"} ELSE Behav}
NoDb(st, d) == d = "d2" /\ st.b \in {"nodb2", "noq2d2"}
NoQ(st, q) == q = "q2" /\ st.b \in {"noq2", "noq2d2"}
Fails(st, q) == q = "q3" /\ st.b = "failq3"

\* the configured stages in pipeline order
RECURSIVE Present(_, _)
Present(c, i) == IF i > Len(Slots) THEN <<>>
                 ELSE (IF c[Slots[i]].t = "none" THEN <<>> ELSE <<c[Slots[i]]>>) \o Present(c, i + 1)
Configured == Present(cfg, 1) \o steps
Elems(s) == {s[i] : i \in 1..Len(s)}
Tok(st) == st.t \o "/" \o st.b
Visible == SelectSeq(Configured, LAMBDA s : s.t # "check")

\* ------------------------------------------------------------ one optimization
Run(st, in) == [st |-> Tok(st), in |-> in]
HasLife(st) == st.t \in {"est", "est*"}
Base(t) == CASE t = "join*" -> "join" [] t = "ops*" -> "ops" [] t = "par*" -> "par" [] t = "est*" -> "est" [] OTHER -> t
Star(t) == t \in {"join*", "ops*", "par*", "est*"}
Hint(d, j, o, p, pl) == [db |-> d, join |-> j, ops |-> o, par |-> p, plan |-> pl]

\* result: fail flag, runs, hints generated in between, resulting plan token
Res(f, runs, hints, plan) == [fail |-> f, runs |-> runs, hints |-> hints, plan |-> plan]
\* emulated algorithms live on database d1
Complete(st, q) ==
  LET in == CASE Base(st.t) = "ops" -> <<"none">> [] Base(st.t) \in {"par", "est"} -> <<"none", "none">> [] OTHER -> <<>>
      r == <<Run(st, in)>>
      k == Tok(st)
      h == Hint("d1", IF st.t = "join*" THEN k ELSE "none", IF st.t = "ops*" THEN k ELSE "none", IF st.t \in {"par*", "est*"} THEN k ELSE "none", "none")
  IN IF Fails(st, q) THEN Res(TRUE, r, <<>>, "none")
     ELSE IF Star(st.t) THEN Res(FALSE, r, <<h>>, "native")
     ELSE Res(FALSE, r, <<>>, k)

RECURSIVE Improve(_, _, _)
Improve(r, i, q) == IF r.fail \/ i > Len(steps) THEN r
  ELSE Improve([r EXCEPT !.runs = Append(@, Run(steps[i], <<r.plan>>)), !.plan = "step" \o ToString(i) \o ":" \o Tok(steps[i]), !.fail = Fails(steps[i], q)], i + 1, q)

Tokn(s) == IF cfg[s].t = "none" THEN "none" ELSE Tok(cfg[s])
RECURSIVE MultiRuns(_, _)
MultiRuns(q, rest) ==
  IF rest = <<>> THEN <<>>
  ELSE LET s == Head(rest)  st == cfg[s]
           in == CASE s = "join" -> <<>> [] s = "ops" -> <<Tokn("join")>> [] s = "par" -> <<Tokn("join"), Tokn("ops")>>
       IN IF st.t = "none" THEN MultiRuns(q, Tail(rest))
          ELSE IF Fails(st, q) THEN <<Run(st, in)>> ELSE <<Run(st, in)>> \o MultiRuns(q, Tail(rest))
MultiFails(q) == \E s \in {"join", "ops", "par"} : Fails(cfg[s], q)

Optimized(q) ==
  CASE Kind = "integrated" -> Complete(cfg["algo"], q)
    [] Kind = "incremental" -> Improve(IF cfg["gen"].t = "none" THEN Res(FALSE, <<>>, <<>>, "native") ELSE Complete(cfg["gen"], q), 1, q)
    [] Kind = "textbook" /\ cfg["enum"].t = "enum" -> Res(Fails(cfg["enum"], q), <<Run(cfg["enum"], <<Tokn("cost"), Tokn("card")>>)>>, <<>>, Tok(cfg["enum"]))
    \* dynamic programming: fails if one of its helpers fails, runs are not observed
    [] Kind = "textbook" -> Res(Fails(cfg["cost"], q) \/ Fails(cfg["card"], q), <<>>, <<>>, "dp")
    [] Kind = "multi" -> Res(MultiFails(q), MultiRuns(q, <<"join", "ops", "par">>), <<>>, "none")

Final(r) == IF r.fail THEN r
  ELSE IF Kind = "multi" THEN [r EXCEPT !.hints = Append(@, Hint(db, Tokn("join"), Tokn("ops"), Tokn("par"), "none")), !.plan = "native"]
  ELSE r
Outcome(q, mode) ==
  LET r == Final(Optimized(q)) IN
  IF r.fail THEN r
  ELSE IF mode = "hint" /\ Kind # "multi" THEN [r EXCEPT !.hints = Append(@, Hint(db, "none", "none", "none", r.plan))]
  ELSE r
NoRes == Res(FALSE, <<>>, <<>>, "none")

Rec(op, a, st, out, r) == [op |-> op, a |-> a, st |-> st, out |-> out, r |-> r]
After(e, c, s) == [e |-> e, stages |-> LET p == Present(c, 1) \o s IN SelectSeq(p, LAMBDA x : x.t # "check")]
Log(e, c, s) == hist' = Append(hist, After(e, c, s))

\* ----------------------------------------------------------------- transitions
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Init == /\ db = "d1" /\ steps = <<>> /\ built = (Kind = "incremental") /\ hist = <<>>
        /\ cfg = [s \in SlotSet |-> IF Kind = "textbook" THEN [t |-> s, b |-> "ok"] ELSE None]
Rejects(c, s, d) == \E st \in Elems(Present(c, 1) \o s) : NoDb(st, d)

Set == \E s \in Pick(SlotSet) : \E st \in Pick(Stages(s)) : \E via \in Pick(Vias) :
         LET c == [cfg EXCEPT ![s] = st]  bad == Kind = "incremental" /\ NoDb(st, db) IN
         /\ cfg' = IF bad THEN cfg ELSE c
         /\ built' = (Kind = "incremental")
         /\ Log(Rec(IF via = "use" /\ s # "check" THEN "use" ELSE "setup", s, st, IF bad THEN "system" ELSE "ok", NoRes), cfg', steps)
         /\ UNCHANGED <<steps, db>>
\* presets overwrite the slots they define and keep the others
Load == /\ Kind = "multi" /\ Loads
        /\ \E j \in Pick(Stages("join") \cup {None}) : \E o \in Pick(Stages("ops") \cup {None}) : \E p \in Pick(Stages("par") \cup {None}) : \E k \in Pick(Stages("check") \cup {None}) :
             LET new == [join |-> j, ops |-> o, par |-> p, check |-> k] IN
             /\ cfg' = [s \in SlotSet |-> IF new[s].t = "none" THEN cfg[s] ELSE new[s]]
             /\ hist' = Append(hist, After([op |-> "load", a |-> new, st |-> None, out |-> "ok", r |-> NoRes], cfg', steps))
        /\ built' = FALSE /\ UNCHANGED <<steps, db>>
AddStep == /\ Kind = "incremental" /\ Len(steps) < MaxSteps
           /\ \E st \in Pick({[t |-> "step", b |-> b] : b \in Behav}) : \E via \in Pick(Vias) :
                /\ steps' = IF NoDb(st, db) THEN steps ELSE Append(steps, st)
                /\ Log(Rec(via, "step", st, IF NoDb(st, db) THEN "system" ELSE "ok", NoRes), cfg, steps')
           /\ UNCHANGED <<cfg, db, built>>
DropGen == /\ Kind = "incremental" /\ cfg["gen"].t # "none"
           /\ cfg' = [cfg EXCEPT !["gen"] = None]
           /\ Log(Rec("dropgen", "gen", None, "ok", NoRes), cfg', steps) /\ UNCHANGED <<steps, db, built>>
SetDb == /\ Kind # "textbook"
         /\ \E d \in Pick({"d1", "d2"}) :
              LET bad == Kind = "incremental" /\ Rejects(cfg, steps, d) IN
              /\ db' = IF bad THEN db ELSE d
              /\ built' = (Kind = "incremental")
              /\ Log(Rec("setdb", d, None, IF bad THEN "system" ELSE "ok", NoRes), cfg, steps)
         /\ UNCHANGED <<cfg, steps>>
Build == /\ Kind # "incremental"
         /\ LET empty == Kind = "integrated" /\ cfg["algo"].t = "none"
                bad == Rejects(cfg, steps, db) IN
            /\ built' = IF empty \/ bad THEN built ELSE TRUE
            /\ Log(Rec("build", "", None, IF empty THEN "state" ELSE IF bad THEN "system" ELSE "ok", NoRes), cfg, steps)
         /\ UNCHANGED <<cfg, steps, db>>
Optimize == /\ \E q \in Pick({"q1", "q2", "q3"}) : \E mode \in Pick(Modes) :
                 LET bad == \E st \in Elems(Configured) : NoQ(st, q)
                     r == Outcome(q, mode) IN
                 Log(IF ~built THEN Rec(mode, q, None, "state", NoRes)
                     ELSE IF bad THEN Rec(mode, q, None, "query", NoRes)
                     ELSE Rec(mode, q, None, IF r.fail THEN "fail" ELSE "ok", r), cfg, steps)
            /\ UNCHANGED <<cfg, steps, db, built>>
NextOp == Set \/ Load \/ AddStep \/ DropGen \/ SetDb \/ Build \/ Optimize
\* simulation: draw the kind of operation first, optimizations are more likely
NextSim == \E k \in {RandomElement(1..10)} :
             CASE k \in 1..2 -> Set
               [] k = 3 -> IF Kind = "multi" THEN Load ELSE IF Kind = "incremental" /\ Len(steps) < MaxSteps THEN AddStep ELSE Set
               [] k = 4 -> IF Kind = "textbook" THEN Set ELSE SetDb
               [] k = 5 -> IF Kind = "incremental" /\ cfg["gen"].t # "none" THEN DropGen ELSE IF Kind = "incremental" THEN SetDb ELSE Build
               [] k = 6 -> IF Kind = "incremental" THEN (IF Len(steps) < MaxSteps THEN AddStep ELSE Optimize) ELSE Build
               [] OTHER -> Optimize
Next == Len(hist) < MaxOps /\ (IF Sim THEN NextSim ELSE NextOp)
Spec == Init /\ [][Next]_vars

\* -------------------------------------------------------------------- properties
LastE == hist[Len(hist)].e
IsOpt(e) == e.op \in {"plan", "hint"}
\* a pipeline is only built if its current configuration supports the current database
BuiltImpliesSupported == built => ~Rejects(cfg, steps, db)
\* optimizations only do anything on built pipelines and supported queries
OnlySupported == (hist # <<>> /\ IsOpt(LastE) /\ LastE.r.runs # <<>>) => built /\ \A st \in Elems(Configured) : ~NoQ(st, LastE.a)
\* the stages run in pipeline order, each at most once, and nothing else runs
RunOrder == (hist # <<>> /\ IsOpt(LastE) /\ Kind \in {"multi", "incremental"}) =>
   LET c == [i \in 1..Len(Visible) |-> Tok(Visible[i])]  r == LastE.r.runs IN
   r # <<>> => /\ Len(r) <= Len(c) /\ \A i \in 1..Len(r) : r[i].st = c[i]
               /\ LastE.out = "ok" => Len(r) = Len(c)
\* a decision that is passed on was made before, in the same optimization
Causal == (hist # <<>> /\ IsOpt(LastE) /\ Kind = "multi") =>
   \A i \in 1..Len(LastE.r.runs) : \A j \in 1..Len(LastE.r.runs[i].in) :
     LastE.r.runs[i].in[j] = "none" \/ \E k \in 1..(i - 1) : LastE.r.runs[k].st = LastE.r.runs[i].in[j]
\* changing anything makes a rebuild necessary
Rebuild == [][(cfg # cfg' \/ db # db') /\ Kind # "incremental" => ~built']_vars

Emit == (Len(hist) = MaxOps /\ (Sim \/ IsOpt(LastE))) => PrintT("@@" \o ToJson([kind |-> Kind, h |-> hist]))
===========================================================================
