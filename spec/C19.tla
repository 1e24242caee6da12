------------------------------- MODULE C19 -------------------------------
(* The benchmark runner.  A run works through workload repetitions, queries   *)
(* and query repetitions; every optimization and execution has an outcome the *)
(* environment chooses.  rows are the records of the current run, files the   *)
(* progressive output (which survives runs), cbs the executions reported to   *)
(* the callback, reps the reported repetitions, logs the experiment log.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NQ, WR, QR, Policies, Outs, Preps, Timeouts, Pipes, Shuffles, Watches, Results, Kills, MaxRuns, Sim

VARIABLES run, cfg, ph, w, i, r, rows, events, cbs, reps, files, logs, hist
vars == <<run, cfg, ph, w, i, r, rows, events, cbs, reps, files, logs, hist>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
NoCfg == [nq |-> 0, wr |-> 0, qr |-> 0, policy |-> "log", out |-> "none", file |-> 1, prep |-> "none", timeout |-> FALSE, pipe |-> FALSE, shuffled |-> FALSE, watch |-> FALSE, cb |-> FALSE]

\* identity of an execution; what it yields depends on nothing else
Row(st, res) == [w |-> w, i |-> i, r |-> r, status |-> st, res |-> res]
Event(k, out, res) == [k |-> k, w |-> w, i |-> i, r |-> r, out |-> out, res |-> res]

Init == /\ run = 0 /\ cfg = NoCfg /\ ph = "idle" /\ w = 0 /\ i = 0 /\ r = 0
        /\ rows = <<>> /\ events = <<>> /\ cbs = <<>> /\ reps = <<>> /\ logs = <<>> /\ hist = <<>>
        /\ files = [f \in {1, 2} |-> <<>>]

Begin == /\ ph = "idle" /\ run < MaxRuns
         /\ \E nq \in Pick(NQ) : \E wr \in Pick(WR) : \E qr \in Pick(QR) : \E p \in Pick(Policies) : \E o \in Pick(Outs) : \E f \in IF Sim THEN {RandomElement({1, 2})} ELSE {1} :
            \E pr \in Pick(Preps) : \E t \in Pick(Timeouts) : \E pi \in Pick(Pipes) : \E sh \in Pick(Shuffles) : \E wa \in Pick(Watches) :
              LET s == sh /\ p # "raise"     \* which queries come first is not specified when shuffling
                  oo == IF run > 0 /\ o # "none" /\ \E k \in 1..Len(hist) : hist[k].cfg.out # "none" /\ hist[k].cfg.file = f
                        THEN (CHOOSE k \in 1..Len(hist) : hist[k].cfg.out # "none" /\ hist[k].cfg.file = f) ELSE 0
                  c == [nq |-> nq, wr |-> wr, qr |-> qr, policy |-> p, out |-> IF oo = 0 THEN o ELSE hist[oo].cfg.out, file |-> f, prep |-> IF s /\ pr = "stmt" THEN "none" ELSE pr,
                        timeout |-> t, pipe |-> pi, shuffled |-> s, watch |-> wa, cb |-> TRUE] IN
              /\ cfg' = c
              /\ logs' = IF c.out = "none" THEN logs ELSE Append(logs, [run |-> run + 1, status |-> "running"])
              /\ ph' = IF nq = 0 THEN "rep" ELSE IF pi THEN "opt" ELSE "exec"
         /\ run' = run + 1 /\ w' = 1 /\ i' = 1 /\ r' = 1
         /\ rows' = <<>> /\ events' = <<>> /\ cbs' = <<>> /\ reps' = <<>>
         /\ UNCHANGED <<files, hist>>

\* where the run continues after query i is done
Advance == IF i < cfg.nq THEN i' = i + 1 /\ r' = 1 /\ w' = w /\ ph' = IF cfg.pipe THEN "opt" ELSE "exec"
           ELSE i' = i /\ r' = r /\ w' = w /\ ph' = "rep"
Record(rs) == /\ rows' = rows \o rs
              /\ files' = IF cfg.out = "none" THEN files ELSE [files EXCEPT ![cfg.file] = @ \o [k \in 1..Len(rs) |-> [run |-> run, idx |-> Len(rows) + k]]]
Abort == ph' = "failed" /\ UNCHANGED <<w, i, r>>

Optimize == /\ ph = "opt"
            /\ \E out \in IF Sim THEN {RandomElement({<<k, IF k = 1 THEN "fail" ELSE "ok">> : k \in 1..4})[2]} ELSE {"ok", "fail"} :
                 /\ events' = Append(events, Event("opt", out, 0))
                 /\ IF out = "ok" THEN ph' = "exec" /\ UNCHANGED <<w, i, r, rows, files>>
                    ELSE CASE cfg.policy = "raise" -> Abort /\ UNCHANGED <<rows, files>>
                           [] cfg.policy = "ignore" -> Advance /\ UNCHANGED <<rows, files>>
                           [] cfg.policy = "log" -> Advance /\ Record([k \in 1..cfg.qr |-> [Row("optimization-error", 0) EXCEPT !.r = k]])
            /\ UNCHANGED <<run, cfg, cbs, reps, logs, hist>>

Outcomes == {"ok"} \cup (IF cfg.timeout THEN {"timeout"} ELSE {}) \cup {"err"} \cup (IF cfg.prep = "stmt" THEN {"prep"} ELSE {}) \cup (IF Kills /\ ~cfg.shuffled THEN {"kill"} ELSE {})
Execute == /\ ph = "exec"
           /\ \E out \in IF Sim THEN {IF RandomElement(1..2) = 1 THEN "ok" ELSE RandomElement(Outcomes)} ELSE Outcomes : \E res \in Pick(Results) :
                LET x == IF out = "ok" THEN res ELSE 0
                    more == r < cfg.qr
                    Go == IF more THEN r' = r + 1 /\ UNCHANGED <<w, i, ph>> ELSE Advance IN
                /\ events' = Append(events, Event("exec", out, x))
                /\ CASE out \in {"ok", "timeout"} -> Go /\ Record(<<Row(out, x)>>) /\ cbs' = Append(cbs, Len(rows) + 1)
                     \* the process is interrupted, whatever the policy says
                     [] out = "kill" -> ph' = "killed" /\ cbs' = cbs /\ UNCHANGED <<w, i, r, rows, files>>
                     [] out \in {"err", "prep"} /\ cfg.policy = "log" -> Go /\ Record(<<Row("execution-error", 0)>>) /\ cbs' = cbs
                     [] out \in {"err", "prep"} /\ cfg.policy = "ignore" -> Go /\ cbs' = cbs /\ UNCHANGED <<rows, files>>
                     [] out \in {"err", "prep"} /\ cfg.policy = "raise" -> Abort /\ cbs' = cbs /\ UNCHANGED <<rows, files>>
           /\ UNCHANGED <<run, cfg, reps, logs, hist>>

EndRep == /\ ph = "rep"
          /\ reps' = Append(reps, w)
          /\ IF w < cfg.wr THEN w' = w + 1 /\ i' = 1 /\ r' = 1 /\ ph' = (IF cfg.nq = 0 THEN "rep" ELSE IF cfg.pipe THEN "opt" ELSE "exec")
             ELSE ph' = "done" /\ UNCHANGED <<w, i, r>>
          /\ UNCHANGED <<run, cfg, rows, events, cbs, files, logs, hist>>
Finish == /\ ph \in {"done", "failed", "killed"}
          /\ logs' = IF cfg.out = "none" THEN logs ELSE [logs EXCEPT ![Len(logs)].status = CASE ph = "done" -> "completed" [] ph = "failed" -> "failed" [] ph = "killed" -> "interrupted"]
          /\ hist' = Append(hist, [cfg |-> cfg, rows |-> rows, events |-> events, cbs |-> cbs, reps |-> reps, ended |-> ph, files |-> files, logs |-> logs'])
          /\ ph' = "idle"
          /\ UNCHANGED <<run, cfg, w, i, r, rows, events, cbs, reps, files>>

Next == Begin \/ Optimize \/ Execute \/ EndRep \/ Finish
Spec == Init /\ [][Next]_vars

\* --------------------------------------------------------------------- the laws
Count(s, P(_)) == Cardinality({k \in 1..Len(s) : P(s[k])})
\* one row per repetition: nothing lost, nothing twice
NoDuplicates == \A a \in 1..Len(rows) : \A b \in 1..Len(rows) : a # b => <<rows[a].w, rows[a].i, rows[a].r>> # <<rows[b].w, rows[b].i, rows[b].r>>
InOrder == \A a \in 1..Len(rows) : \A b \in 1..Len(rows) : a < b => \/ rows[a].w < rows[b].w
                                                                    \/ rows[a].w = rows[b].w /\ rows[a].i < rows[b].i
                                                                    \/ rows[a].w = rows[b].w /\ rows[a].i = rows[b].i /\ rows[a].r < rows[b].r
AllRecorded == ph = "done" /\ cfg.policy = "log" => Len(rows) = cfg.nq * cfg.wr * cfg.qr
\* a run that ended normally raised nothing, and reported all of its repetitions
RepsReported == ph = "done" => reps = [k \in 1..cfg.wr |-> k]
\* the progressive output is what the returned frame consists of
FileMatches == cfg.out # "none" => SelectSeq(files[cfg.file], LAMBDA e : e.run = run) = [k \in 1..Len(rows) |-> [run |-> run, idx |-> k]]
Callbacks == Len(cbs) = Count(rows, LAMBDA x : x.status \in {"ok", "timeout"})
LogsEnd == ph = "idle" => \A k \in 1..Len(logs) : logs[k].status # "running"
OnlyGrow == [][\A f \in {1, 2} : SubSeq(files'[f], 1, Len(files[f])) = files[f]]_vars

Emit == (ph = "idle" /\ run = MaxRuns) => PrintT("@@" \o ToJson([h |-> hist]))
===========================================================================
