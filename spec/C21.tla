------------------------------- MODULE C21 -------------------------------
(* Timed execution of queries.  A worker connects, prepares, runs the query,  *)
(* fetches and hands over the result; a controller follows its progress       *)
(* through a channel and starts the timer once the query is about to run.     *)
(* Every query comes with a script: at one stage something goes wrong.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxQ, Faults, Extras, Sim

VARIABLES n, script, w, chan, eof, c, armed, srv, dog, outcome, cancelled, hist, done
vars == <<n, script, w, chan, eof, c, armed, srv, dog, outcome, cancelled, hist, done>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

Stages == {"connect", "config", "prep", "exec", "fetch", "result"}
AllScripts == {[stage |-> "exec", kind |-> "none"]}
    \cup [stage : Stages \ {"result"}, kind : {"error", "crash"}]
    \cup [stage : {"connect", "config", "fetch"}, kind : {"slow"}]
    \cup [stage : {"exec"}, kind : {"hang", "race", "mute", "cached", "strange"}]
    \cup [stage : {"result"}, kind : {"error"}]
Scripts == {s \in AllScripts : s.kind \in Faults /\ (s.kind = "error" => s.stage \in {"exec"} \/ "crash" \in Faults \/ "slow" \in Faults)}
NoScript == [stage |-> "", kind |-> ""]

\* what the caller may see
Allowed(s) == CASE s.kind \in {"error", "crash", "strange"} -> {"failure"}
                [] s.kind = "hang" -> {"timeout"}
                [] s.kind = "race" -> {"result", "timeout"}
                [] OTHER -> {"result"}

Init == /\ n = 0 /\ script = NoScript /\ w = "dead" /\ chan = <<>> /\ eof = TRUE /\ c = "idle" /\ armed = FALSE
        /\ srv = "none" /\ dog = "none" /\ outcome = "" /\ cancelled = FALSE /\ hist = <<>> /\ done = FALSE

At(stage, kind) == script.stage = stage /\ script.kind = kind
Blank == [op |-> "", stage |-> "", kind |-> "", allowed |-> <<>>]

Start == /\ c = "idle" /\ n < MaxQ /\ ~done
         /\ \E s \in Pick(Scripts) :
              /\ script' = s /\ n' = n + 1
              /\ hist' = Append(hist, [Blank EXCEPT !.op = "query", !.stage = s.stage, !.kind = s.kind, !.allowed = IF s.kind = "race" THEN <<"result", "timeout">> ELSE <<CHOOSE x \in Allowed(s) : TRUE>>])
              /\ IF s.kind = "cached" THEN c' = "over" /\ outcome' = "result" /\ UNCHANGED <<w, eof, dog>>
                 ELSE c' = "ctl" /\ outcome' = "" /\ w' = "connect" /\ eof' = FALSE /\ dog' = IF dog = "none" THEN "open" ELSE dog
         /\ chan' = <<>> /\ armed' = FALSE /\ srv' = "none" /\ cancelled' = FALSE /\ UNCHANGED done
\* between the queries
Extra == /\ c = "idle" /\ n < MaxQ /\ ~done /\ n > 0 /\ hist[Len(hist)].op = "query"
         /\ \E e \in Pick(Extras) :
              /\ hist' = Append(hist, [Blank EXCEPT !.op = e])
              /\ dog' = CASE e \in {"lose", "drop"} /\ dog = "open" -> "lost" [] e = "reset" -> "none" [] OTHER -> dog
         /\ UNCHANGED <<n, script, w, chan, eof, c, armed, srv, outcome, cancelled, done>>

(* ------------------------------ the worker ------------------------------ *)
Send(m) == chan' = Append(chan, m)
Quit == w' = "dead" /\ eof' = TRUE
Broken(stage) == \/ At(stage, "error") /\ Send("error") /\ Quit /\ srv' = "none"
                 \/ At(stage, "crash") /\ Quit /\ UNCHANGED <<chan, srv>>           \* the server does not notice
Works(stage) == ~At(stage, "error") /\ ~At(stage, "crash")
Worker ==
    /\ CASE w = "connect" -> Broken("connect") \/ (Works("connect") /\ Send("connected") /\ w' = "config" /\ srv' = "idle" /\ UNCHANGED eof)
         [] w = "config" -> Broken("config") \/ (Works("config") /\ w' = "prep" /\ UNCHANGED <<chan, srv, eof>>)
         [] w = "prep" -> Broken("prep") \/ (Works("prep") /\ Send("ready") /\ w' = "exec" /\ srv' = "running" /\ UNCHANGED eof)
         [] w = "exec" /\ srv = "cancelled" -> Send("error") /\ Quit /\ srv' = "none"
         [] w = "exec" /\ srv # "cancelled" /\ script.kind # "hang" ->
              Broken("exec") \/ (At("exec", "strange") /\ Quit /\ srv' = "none" /\ UNCHANGED chan)      \* an error that cannot be handed over
                             \/ (Works("exec") /\ script.kind # "strange" /\ Send("finished") /\ w' = "fetch" /\ srv' = "idle" /\ UNCHANGED eof)
         [] w = "fetch" -> Broken("fetch") \/ (Works("fetch") /\ Send(IF At("result", "error") THEN "error" ELSE "result") /\ Quit /\ srv' = "none")
         [] OTHER -> FALSE
    /\ UNCHANGED <<n, script, c, armed, dog, outcome, cancelled, hist, done>>

(* ---------------------------- the controller ---------------------------- *)
Over(o) == outcome' = o /\ c' = "over"
\* if the watchdog lost its connection, it reconnects
Cancel == /\ cancelled' = TRUE /\ dog' = "open"
          /\ srv' = IF srv = "running" THEN "cancelled" ELSE srv
Receive == chan # <<>> \/ eof
Event == IF chan # <<>> THEN Head(chan) ELSE "error"          \* a worker that is gone has failed
Consume == chan' = IF chan # <<>> THEN Tail(chan) ELSE chan
Follow(good, next) ==
    /\ Receive /\ Consume
    /\ IF Event = good THEN /\ IF next = "over" THEN Over("result") ELSE c' = next /\ UNCHANGED outcome
                            /\ UNCHANGED <<cancelled, dog, srv>>
       ELSE /\ Over("failure")
            /\ IF c = "ctl" THEN UNCHANGED <<cancelled, dog, srv>> ELSE Cancel
Controller ==
    /\ CASE c = "ctl" -> Follow("connected", "prep") /\ armed' = FALSE
         [] c = "prep" -> Follow("ready", "run") /\ armed' = (Event = "ready")
         [] c = "run" -> Follow("finished", "result") /\ armed' = FALSE
         [] c = "result" -> Follow("result", "over") /\ armed' = FALSE
         [] OTHER -> FALSE
    /\ UNCHANGED <<n, script, w, eof, hist, done>>
Expire == /\ c = "run" /\ armed /\ chan = <<>> /\ ~eof /\ script.kind \in {"hang", "race"}
          /\ Over("timeout") /\ Cancel /\ armed' = FALSE
          /\ UNCHANGED <<n, script, w, chan, eof, hist, done>>
\* the worker is gone before the next query starts
Cleanup == /\ c = "over" /\ (w = "dead" \/ outcome # "result")
           /\ w' = "dead" /\ eof' = TRUE /\ chan' = <<>> /\ c' = "idle"
           /\ UNCHANGED <<n, script, armed, srv, dog, outcome, cancelled, hist, done>>
Emit == /\ c = "idle" /\ n = MaxQ /\ ~done /\ done' = TRUE
        /\ PrintT("@@" \o ToJson(hist))
        /\ UNCHANGED <<n, script, w, chan, eof, c, armed, srv, dog, outcome, cancelled, hist>>
\* in simulations, what happens within a query is random anyway
Next == Start \/ Extra \/ Worker \/ Controller \/ Expire \/ Cleanup \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Start) /\ WF_vars(Worker) /\ WF_vars(Controller) /\ WF_vars(Expire) /\ WF_vars(Cleanup) /\ WF_vars(Emit)

\* the outcome is one that the script allows
Right == c \in {"over", "idle"} /\ n > 0 => outcome \in Allowed(script)
\* nothing is left behind
NoOrphan == c = "idle" => srv # "running" /\ w = "dead" /\ chan = <<>>
\* successful queries are never cancelled, timeouts and late failures always are
Cancelled == c \in {"over", "idle"} /\ n > 0 => /\ (outcome = "result" => ~cancelled) /\ (outcome = "timeout" => cancelled)
\* the time limit is only about the execution
OnlyRunning == outcome = "timeout" => script.stage = "exec"
Ends == <>done
=============================================================================
