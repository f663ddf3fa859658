---------------------------- MODULE TR_Inspect ----------------------------
EXTENDS Inspect, Json, IOUtils
TRCfgs == LET cs == ndJsonDeserialize(IOEnv.CASES) IN {cs[k] : k \in 1..Len(cs)}
O == C.obs
If(b, w) == IF b THEN {} ELSE {w}
Failed == If((rc = 0) = (O.rc = 0), <<"exit", O.rc>>) \cup If(rc # 0 \/ O.said = said, <<"answer", O.said, said>>) \cup If(O.clean, <<"files touched or left">>)
VARIABLE told
Tell == pc = "done" /\ ~told /\ PrintT(<<"VERDICT", C.id, Failed>>) /\ told' = TRUE /\ UNCHANGED vars
TRInit == Init /\ told = FALSE
TRNext == (Next /\ UNCHANGED told) \/ Tell
View == <<C.id, pc, f, v, rc, told>>
=============================================================================
