---------------------------- MODULE TR_Topog ----------------------------
(* A recorded run of make_topog, on one or more processes, against the specification.                        *)
EXTENDS Topog, Json, IOUtils
TRCfgs == LET cs == ndJsonDeserialize(IOEnv.CASES) IN {cs[k] : k \in 1..Len(cs)}
O == C.obs
Abs(a) == IF a < 0 THEN -a ELSE a
If(b, w) == IF b THEN {} ELSE {w}
Slack == IF C.type = "mean" THEN 2 + (3 * C.passes) ELSE 0
BadTile(t) ==
  LET r == TLCEval(Result)  o == O.tiles[t] IN
  IF Len(o.h) # NI * NJ \/ o.shape # <<NJ, NI>> THEN {<<"shape", t, o.shape>>}
  ELSE {<<"depth", t, c, o.h[c], r.h[c]>> : c \in {c \in Cells : Abs(o.h[c] - r.h[c]) > Slack \/ ((o.h[c] = 0) # (r.h[c] = 0))}} \cup
       (IF Vert THEN IF Len(o.k) # NI * NJ THEN {<<"no levels", t>>} ELSE {<<"level", t, c, o.k[c], r.k[c]>> : c \in {c \in Cells : o.k[c] # r.k[c]}}
        ELSE If(o.k = <<>>, <<"levels", t>>))
Failed ==
  IF C.bad \/ (C.type # "other" /\ Refusal) THEN If(O.rc # 0, <<"accepted">>)
  ELSE IF O.rc # 0 \/ ~O.read THEN {<<"status", O.rc>>}
  ELSE If(O.files, <<"files">>) \cup If(O.inputs, <<"inputs changed">>) \cup If(O.atts, <<"attributes">>) \cup If(Len(O.tiles) = C.nt, <<"tiles", Len(O.tiles)>>) \cup
       (IF C.type = "other" THEN If(O.same, <<"processes differ">>) \cup If(O.range, <<"not finite">>) ELSE UNION {BadTile(t) : t \in 1..Len(O.tiles)})
VARIABLE told
View == <<C.id, told>>
TRInit == Init /\ told = FALSE
Tell == ~told /\ PrintT(<<"VERDICT", C.id, Failed>>) /\ told' = TRUE /\ UNCHANGED vars
TRNext == Tell
=========================================================================
