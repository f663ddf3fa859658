------------------------------ MODULE Inspect ------------------------------
(* list_ncvars.sh and ncexists: questions about the contents of files.        *)
EXTENDS NcFile
CONSTANTS Cfgs
VARIABLES cfg, pc, f, v, said, rc
vars == <<cfg, pc, f, v, said, rc>>
C == cfg
Ends(s, e) == Len(s) >= Len(e) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
\* a file: [here, nc, gatts (names), vars: [n, char, rec, rank (without the record dimension), atts (names)]]
Bad == {k \in 1..Len(C.files) : ~C.files[k].nc}
Refused == \/ Len(C.files) = 0
           \/ \E k \in 1..Len(C.files) : ~C.files[k].here
           \/ (~C.s /\ ~C.t) \/ C.ranks = <<>>
Listed(x) == /\ ~x.char
             /\ ~Ends(x.n, "_T1") /\ ~Ends(x.n, "_T2") /\ ~Ends(x.n, "_DT") /\ ~Ends(x.n, "_NITEMS")
             /\ (IF x.rec THEN C.t ELSE C.s)
             /\ x.rank \in Range(C.ranks)
Init == cfg \in Cfgs /\ pc = "start" /\ f = 1 /\ v = 1 /\ said = <<>> /\ rc = -1
Refuse == pc = "start" /\ C.op = "list" /\ Refused /\ pc' = "done" /\ rc' = 1 /\ UNCHANGED <<cfg, f, v, said>>
Begin  == pc = "start" /\ C.op = "list" /\ ~Refused /\ pc' = "work" /\ UNCHANGED <<cfg, f, v, said, rc>>
Look   == /\ pc = "work" /\ f <= Len(C.files) /\ UNCHANGED <<cfg, pc, rc>>
          /\ IF ~C.files[f].nc \/ v > Len(C.files[f].vars) THEN f' = f + 1 /\ v' = 1 /\ UNCHANGED said
             ELSE /\ v' = v + 1 /\ UNCHANGED f
                  /\ said' = IF Listed(C.files[f].vars[v]) THEN Append(said, C.files[f].vars[v].n) ELSE said
End    == pc = "work" /\ f > Len(C.files) /\ pc' = "done" /\ rc' = (IF Bad = {} THEN 0 ELSE 1) /\ UNCHANGED <<cfg, f, v, said>>
\* ncexists: C.q = [g (global attribute or ""), v, a]
Exists(x) == IF C.q.g # "" THEN C.q.g \in Range(x.gatts)
             ELSE \E k \in 1..Len(x.vars) : x.vars[k].n = C.q.v /\ (C.q.a = "" \/ C.q.a \in Range(x.vars[k].atts))
Answer == /\ pc = "start" /\ C.op = "exists" /\ pc' = "done" /\ UNCHANGED <<cfg, f, v>>
          /\ LET x == C.files[1] IN
             IF (C.q.g = "" /\ C.q.v = "") \/ ~x.here \/ ~x.nc THEN rc' = 1 /\ UNCHANGED said
             ELSE rc' = 0 /\ said' = << IF Exists(x) THEN "1" ELSE "0" >>
Next == Refuse \/ Begin \/ Look \/ End \/ Answer
TypeOK == pc \in {"start", "work", "done"} /\ rc \in {-1, 0, 1}
\* every variable is said at most as often as it occurs, and only if asked for
OnlyListed == C.op = "list" => \A k \in 1..Len(said) : \E q \in 1..Len(C.files) : \E w \in 1..Len(C.files[q].vars) : C.files[q].vars[w].n = said[k] /\ Listed(C.files[q].vars[w])
AllListed == (C.op = "list" /\ pc = "done" /\ rc = 0) => \A q \in 1..Len(C.files) : \A w \in 1..Len(C.files[q].vars) : Listed(C.files[q].vars[w]) => C.files[q].vars[w].n \in Range(said)
=============================================================================
