---------------------------- MODULE TR_MppSafe ----------------------------
(* Runs of mppnccombine in which a write failed, space ran out or the process *)
(* was killed, recorded at the system-call level.  The specification is first *)
(* run to the end (what the complete output is), then the recorded events are *)
(* consumed one by one: an input may go only after the output was closed, and *)
(* only while the complete output is on disk.                                 *)
EXTENDS TR_MppCombine
VARIABLES l, made, shut, gone, bad
tvars == <<l, made, shut, gone, bad>>
E == C.events

InputIdx(n) == IF \E k \in 1..NF : C.fnames[k] = n THEN CHOOSE k \in 1..NF : C.fnames[k] = n ELSE 0

OnEvent ==
  LET e == E[l] IN
  /\ pc = "done" /\ ~told /\ l <= Len(E) /\ l' = l + 1
  /\ CASE e.op = "CREATE" -> made' = TRUE /\ shut' = FALSE /\ gone' = gone
                             /\ bad' = bad \cup (IF gone = {} THEN {} ELSE {"output created again after inputs were removed"})
       [] e.op \in {"W", "WFAIL", "CFAIL"} -> shut' = FALSE /\ UNCHANGED <<made, gone>>
                             /\ bad' = bad \cup (IF gone = {} THEN {} ELSE {"output written after inputs were removed"})
       [] e.op = "CLOSE" -> shut' = TRUE /\ UNCHANGED <<made, gone, bad>>
       [] e.op = "KILL" -> UNCHANGED <<made, shut, gone, bad>>
       [] e.op = "UNLINK" ->
            LET k == InputIdx(e.n) IN
            IF k > 0
            THEN /\ gone' = gone \cup {k} /\ UNCHANGED <<made, shut>>
                 /\ bad' = bad \cup (IF shut /\ made THEN {} ELSE {"input removed before the output was closed"})
            ELSE /\ UNCHANGED <<shut, gone>> /\ made' = (made /\ e.n # C.outname)
                 /\ bad' = bad \cup (IF e.n = C.outname /\ gone = {} THEN {} ELSE {"removed " \o e.n})
       [] OTHER -> UNCHANGED <<made, shut, gone>> /\ bad' = bad \cup {"unexpected " \o e.op}
  /\ UNCHANGED <<vars, told>>

Verdict ==
  {<<b>> : b \in bad} \cup
  (IF gone = Range(O.removed) THEN {} ELSE {<<"removals seen differ">>}) \cup
  (IF Range(O.removed) \subseteq removed THEN {} ELSE {<<"removed a file that was not combined">>}) \cup
  (IF O.rc = 0 => Range(O.removed) = removed THEN {} ELSE {<<"success without removing">>}) \cup
  (IF O.others THEN {} ELSE {<<"touched other files">>}) \cup
  (IF O.inputs THEN {} ELSE {<<"inputs modified">>}) \cup
  (IF O.rc = 0 \/ O.removed # <<>>
   THEN (IF O.ok THEN Structure \cup Data ELSE {<<"no complete output although it succeeded or removed inputs">>})
   ELSE {})

TellS == pc = "done" /\ ~told /\ l > Len(E) /\ PrintT(<<"VERDICT", C.id, Verdict>>) /\ told' = TRUE /\ UNCHANGED <<vars, tvars>>
SInit == TRInit /\ l = 1 /\ made = FALSE /\ shut = FALSE /\ gone = {} /\ bad = {}
SNext == (Next /\ UNCHANGED <<told, tvars>>) \/ OnEvent \/ TellS
SView == <<View, l, made, shut, gone, bad>>
=============================================================================
