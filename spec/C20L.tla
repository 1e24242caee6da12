------------------------------- MODULE C20L -------------------------------
(* Loading workloads: a directory tree is filled file by file, then read.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Dirs, Stems, Contents, MaxFiles, Policies, Prefixes, Rows, MaxRows, Sim
\* Dirs: "" (root), "sub", "sub/deep", "sql.d"; Contents: "q1".. (readable), "latin" (readable with the right encoding), "bad", "other" (not matching the pattern)

VARIABLES files, rows, ph, out
vars == <<files, rows, ph, out>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Init == files = <<>> /\ rows = <<>> /\ ph = "choose" /\ out = <<>>

\* ---------------------------------------------------------------- directories
Prefix(p, d) == IF d = "" THEN p
                ELSE IF p = "" THEN d \o "/" ELSE IF p = "p/" THEN p \o d \o "/" ELSE p \o "/" \o d \o "/"
Seen(rec) == {k \in 1..Len(files) : files[k].text # "other" /\ (rec \/ files[k].dir = "")}
Broken(rec) == {k \in Seen(rec) : files[k].text = "bad"}
Read(rec, policy, p) ==
    [fails |-> policy = "raise" /\ Broken(rec) # {},
     entries |-> {[label |-> Prefix(p, files[k].dir) \o files[k].stem, text |-> files[k].text] : k \in Seen(rec) \ Broken(rec)},
     warnings |-> IF policy = "warn" THEN Cardinality(Broken(rec)) ELSE 0]

AddFile == /\ ph = "files"
           /\ \/ /\ Len(files) < MaxFiles
                 /\ \E d \in Pick(Dirs) : \E s \in Pick(Stems) : \E t \in Pick(Contents) :
                      /\ IF \E k \in 1..Len(files) : files[k].dir = d /\ files[k].stem = s THEN UNCHANGED files
                         ELSE /\ Sim \/ files = <<>> \/ \A k \in 1..Len(files) : <<files[k].dir, files[k].stem>> # <<d, s>>
                              /\ files' = Append(files, [dir |-> d, stem |-> s, text |-> t])
                      /\ ph' = "files"
              \/ ph' = "read" /\ UNCHANGED files
           /\ UNCHANGED <<rows, out>>
ReadDir == /\ ph = "read"
           /\ \E rec \in Pick(BOOLEAN) : \E pol \in Pick(Policies) : \E p \in Pick(Prefixes) :
                out' = [kind |-> "dir", files |-> files, rec |-> rec, policy |-> pol, prefix |-> p, want |-> Read(rec, pol, p), rows |-> <<>>]
           /\ ph' = "print" /\ UNCHANGED <<files, rows>>

\* ---------------------------------------------------------------- lists of queries: lines of a file, rows of a table, python objects
NonBlank == SelectSeq(rows, LAMBDA x : x # "blank")
AddRow == /\ ph = "rows"
          /\ \/ /\ Len(rows) < MaxRows /\ \E t \in Pick(Rows) : rows' = Append(rows, t)
                /\ ph' = "rows"
             \/ ph' = "list" /\ UNCHANGED rows
          /\ UNCHANGED <<files, out>>
ReadList == /\ ph = "list"
            /\ \E kind \in Pick({"batch", "csv", "csvlabels", "generate", "genlabels", "wrap"}) :
                 LET qs == IF kind = "batch" THEN rows ELSE NonBlank
                     texts == NonBlank IN
                 out' = [kind |-> kind, files |-> <<>>, rec |-> FALSE, policy |-> "raise", prefix |-> "", rows |-> qs,
                         want |-> [fails |-> FALSE, warnings |-> 0,
                                   entries |-> {[label |-> IF kind \in {"csvlabels", "genlabels"} THEN "label" \o ToString(k) ELSE ToString(k), text |-> texts[k]] : k \in 1..Len(texts)}]]
            /\ ph' = "print" /\ UNCHANGED <<files, rows>>

Next == \/ ph = "choose" /\ \E k \in Pick({"files", "rows"}) : ph' = k /\ UNCHANGED <<files, rows, out>>
        \/ AddFile \/ ReadDir \/ AddRow \/ ReadList
        \/ ph = "print" /\ PrintT("@@" \o ToJson(out)) /\ ph' = "end" /\ UNCHANGED <<files, rows, out>>
Spec == Init /\ [][Next]_vars

\* one entry for each readable file that is in scope, no two files share a label
OneEach == ph = "print" /\ out.kind = "dir" =>
    /\ Cardinality(out.want.entries) = Cardinality({k \in Seen(out.rec) : files[k].text # "bad"})
    /\ \A x \in out.want.entries : \A y \in out.want.entries : x.label = y.label => x = y
Positions == ph = "print" /\ out.kind \in {"batch", "csv", "generate", "wrap"} =>
    {e.label : e \in out.want.entries} = {ToString(k) : k \in 1..Cardinality(out.want.entries)}
=============================================================================
