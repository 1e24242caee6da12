------------------------------- MODULE C17 -------------------------------
(* The query cache.  Each database has a data version; executing query q at   *)
(* version v yields the result <<q, v>>.  A session opens databases (one      *)
(* instance per database), executes queries with different cache settings,    *)
(* and ends normally (caches are written), or is killed - possibly while a    *)
(* cache is being written.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NDB, NQ, MaxVer, MaxOps, Crashes, Sim

VARIABLES ver, disk, inst, hist
vars == <<ver, disk, inst, hist>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
D == 1..NDB
Q == 1..NQ
Empty == [q \in Q |-> 0]
Closed == [open |-> FALSE, on |-> FALSE, loaded |-> FALSE, mem |-> Empty]
Absent == [ok |-> FALSE, mem |-> Empty]

Init == /\ ver = [d \in D |-> 1] /\ disk = [d \in D |-> Absent] /\ inst = [d \in D |-> Closed] /\ hist = <<>>

Step(op, d, q, mode, form, res) == hist' = Append(hist, [op |-> op, d |-> d, q |-> q, mode |-> mode, form |-> form, res |-> res])

\* reading the persisted results; a missing or broken file means that nothing is known
Restored(d) == IF disk[d].ok THEN disk[d].mem ELSE Empty
Inflated(d, i) == IF i.mem = Empty THEN [i EXCEPT !.loaded = TRUE, !.mem = Restored(d)] ELSE i

Open(d) == /\ ~inst[d].open
           /\ \E on \in Pick(BOOLEAN) :
                LET i == [open |-> TRUE, on |-> on, loaded |-> FALSE, mem |-> Empty] IN
                /\ inst' = [inst EXCEPT ![d] = IF on THEN Inflated(d, i) ELSE i]
                /\ Step("open", d, 0, IF on THEN "on" ELSE "off", "", 0)
           /\ UNCHANGED <<ver, disk>>

\* mode: "default" (setting of the database), "on", "off"
Execute(d) == /\ inst[d].open
              /\ \E q \in Pick(Q) : \E mode \in IF Sim THEN {RandomElement({<<1, "default">>, <<2, "default">>, <<3, "on">>, <<4, "off">>, <<5, "on">>})[2]} ELSE {"default", "on", "off"} :
                 \E form \in Pick(IF Sim THEN {"raw", "simple"} ELSE {IF q % 2 = 1 THEN "raw" ELSE "simple"}) :
                   LET use == mode = "on" \/ (mode = "default" /\ inst[d].on)
                       i == IF use /\ ~inst[d].loaded THEN Inflated(d, inst[d]) ELSE inst[d]
                       r == IF use /\ i.mem[q] # 0 THEN i.mem[q] ELSE ver[d] IN
                   /\ inst' = [inst EXCEPT ![d] = IF use THEN [i EXCEPT !.mem[q] = r] ELSE i]
                   /\ Step("execute", d, q, mode, form, r)
              /\ UNCHANGED <<ver, disk>>

Toggle(d) == /\ inst[d].open
             /\ \E on \in Pick(BOOLEAN) :
                  /\ inst' = [inst EXCEPT ![d] = [(IF on THEN Inflated(d, inst[d]) ELSE inst[d]) EXCEPT !.on = on]]
                  /\ Step("toggle", d, 0, IF on THEN "on" ELSE "off", "", 0)
             /\ UNCHANGED <<ver, disk>>
\* before the cache was read there is nothing to reset
Reset(d) == /\ inst[d].open /\ inst[d].loaded
            /\ inst' = [inst EXCEPT ![d].mem = Empty]
            /\ Step("reset", d, 0, "", "", 0)
            /\ UNCHANGED <<ver, disk>>
\* the data changes, behind the back of the cache
Change(d) == /\ ver[d] < MaxVer /\ ver' = [ver EXCEPT ![d] = @ + 1]
             /\ inst[d].open
             /\ Step("change", d, 0, "", "", 0)
             /\ UNCHANGED <<disk, inst>>

Stored(d) == IF inst[d].loaded THEN [ok |-> TRUE, mem |-> inst[d].mem] ELSE disk[d]
Exit == /\ \E d \in D : inst[d].open
        /\ disk' = [d \in D |-> Stored(d)]
        /\ inst' = [d \in D |-> Closed]
        /\ Step("exit", 0, 0, "", "", 0)
        /\ UNCHANGED ver
\* killed: nothing is written, or the cache of one database only in part
Kill == /\ Crashes /\ \E d \in D : inst[d].open
        /\ \E t \in Pick({0} \cup {d \in D : inst[d].loaded /\ inst[d].mem # Empty}) :
             /\ disk' = [d \in D |-> IF d = t THEN Absent ELSE disk[d]]
             /\ Step(IF t = 0 THEN "kill" ELSE "torn", t, 0, "", "", 0)
        /\ inst' = [d \in D |-> Closed]
        /\ UNCHANGED ver

Choices == {"open", "execute", "toggle", "reset", "change", "exit", "kill"}
Weighted == {"open", "execute1", "execute2", "execute3", "toggle", "reset", "change", "exit", "kill", "change2"}
Do(c, d) == CASE c = "open" -> Open(d)
              [] c \in {"execute", "execute1", "execute2", "execute3"} -> Execute(d)
              [] c = "toggle" -> Toggle(d) [] c = "reset" -> Reset(d) [] c \in {"change", "change2"} -> Change(d)
              [] c = "exit" -> d = 1 /\ Exit [] c = "kill" -> d = 1 /\ Kill
Able(c, d) == CASE c = "open" -> ~inst[d].open
                [] c \in {"execute", "execute1", "execute2", "execute3", "toggle"} -> inst[d].open
                [] c = "reset" -> inst[d].open /\ inst[d].loaded
                [] c \in {"change", "change2"} -> ver[d] < MaxVer /\ inst[d].open
                [] c = "exit" -> d = 1 /\ \E x \in D : inst[x].open
                [] c = "kill" -> d = 1 /\ Crashes /\ \E x \in D : inst[x].open
Next == \/ /\ Len(hist) < MaxOps
           /\ IF Sim THEN \E cd \in Pick({x \in Weighted \X D : Able(x[1], x[2])}) : Do(cd[1], cd[2])
              ELSE \E c \in Choices : \E d \in D : Do(c, d)
        \/ /\ Len(hist) = MaxOps
           /\ PrintT("@@" \o ToJson(hist)) /\ UNCHANGED <<ver, disk, inst>> /\ hist' = Append(hist, [op |-> "end", d |-> 0, q |-> 0, mode |-> "", form |-> "", res |-> 0])
Spec == Init /\ [][Next]_vars

\* --------------------------------------------------------------- properties
\* every known result was true at some time, and results never come from the future or from nowhere
Sound == \A d \in D : /\ \A q \in Q : inst[d].mem[q] <= ver[d] /\ disk[d].mem[q] <= ver[d]
                      /\ inst[d].mem # Empty => inst[d].loaded
\* a call that does not use the cache sees the current data and leaves the cache alone
Direct == [][\A d \in D : (Len(hist') = Len(hist) + 1 /\ hist'[Len(hist')].op = "execute" /\ hist'[Len(hist')].d = d
                           /\ (hist'[Len(hist')].mode = "off" \/ (hist'[Len(hist')].mode = "default" /\ ~inst[d].on)))
                    => hist'[Len(hist')].res = ver[d] /\ inst' = inst]_vars
\* while the data does not change the cache cannot be noticed
Transparent == (\A d \in D : ver[d] = 1) => \A k \in 1..Len(hist) : hist[k].op = "execute" => hist[k].res = 1
\* databases do not influence each other
Isolated == [][\A d \in D : (Len(hist') = Len(hist) + 1 /\ hist'[Len(hist')].op \in {"open", "execute", "toggle", "reset", "change"} /\ hist'[Len(hist')].d # d)
                    => inst'[d] = inst[d] /\ disk'[d] = disk[d]]_vars
=============================================================================
