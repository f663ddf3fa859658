---------------------------- MODULE TR_Restarts ----------------------------
EXTENDS Restarts, Json, IOUtils
TRCfgs == LET cs == ndJsonDeserialize(IOEnv.CASES) IN {cs[k] : k \in 1..Len(cs)}
O == C.obs
If(b, w) == IF b THEN {} ELSE {w}
ObsNames == {O.files[k].n : k \in 1..Len(O.files)}
Must == {n \in DOMAIN dir : dir[n] # "any"}
Failed ==
  If(IF C.op = "check" THEN O.rc = rc ELSE (rc = 0) = (O.rc = 0), <<"exit", O.rc>>) \cup
  {<<"file missing", n>> : n \in Must \ ObsNames} \cup
  {<<"unexpected file", n>> : n \in ObsNames \ DOMAIN dir} \cup
  UNION {LET f == O.files[k] IN If(f.n \notin DOMAIN dir \/ dir[f.n] \in {"any", f.c}, <<"content", f.n, f.c>>) : k \in 1..Len(O.files)} \cup
  If(O.said, <<"-n does not print the command">>) \cup
  (IF C.op = "iceberg" THEN
     If(rc # 0 \/ O.made = out.made, <<"output made", O.made>>) \cup
     (IF out.made /\ O.made THEN If(O.rec = out.rec, <<"records", O.rec>>) \cup If(~O.nfs, <<"NumFilesInSet left">>) \cup If(O.rest, <<"structure">>) ELSE {}) ELSE {})
VARIABLE told
Tell == pc = "done" /\ ~told /\ PrintT(<<"VERDICT", C.id, Failed>>) /\ told' = TRUE /\ UNCHANGED vars
TRInit == Init /\ told = FALSE
TRNext == (Next /\ UNCHANGED told) \/ Tell
View == <<C.id, pc, g, rc, told>>
=============================================================================
