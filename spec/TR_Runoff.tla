---------------------------- MODULE TR_Runoff ----------------------------
(* A recorded run of runoff_regrid against the specification.  Where two wet cells are as near to a dry one   *)
(* either may get its runoff: every wet cell is bounded by what it surely and what it possibly gets.          *)
EXTENDS Runoff, Json, IOUtils
Abs(a) == IF a < 0 THEN -a ELSE a
TRCfgs == LET cs == ndJsonDeserialize(IOEnv.CASES) IN {cs[k] : k \in 1..Len(cs)}
O == C.obs
If(b, w) == IF b THEN {} ELSE {w}
Near == TLCEval([c \in Cells |-> IF Wet(c) \/ Wets = {} THEN {} ELSE Nearest(c)])
Out == {c \in Cells : c > Shift}
\* thousandths of runoff per area
Val(t, a) == ((t \div a) * 1000) + (((t % a) * 1000) \div a)
Slack(v) == 2
BadRec(r) ==
  LET f == FallsOn(r)
      near == TLCEval(Near)
      area == TLCEval([c \in Cells |-> Area(c)])
      land == {c \in Cells : ~Wet(c) /\ f[c] > 0}
      sure(w) == f[w] + MapThenSumSet(LAMBDA c : f[c], {c \in land : near[c] = {w}})
      maybe(w) == f[w] + MapThenSumSet(LAMBDA c : f[c], {c \in land : w \in near[c]})
      tot == MapThenSumSet(LAMBDA c : f[c], Cells)
      o(c) == O.out[r][c - Shift]
      all == MapThenSumSet(LAMBDA c : ((o(c) \div 1000) * area[c]) + (((o(c) % 1000) * area[c]) \div 1000), Out)
  IN {<<"dry", r, c, o(c)>> : c \in {c \in Out : ~Wet(c) /\ o(c) # 0}} \cup
     {<<"wet", r, c, o(c), Val(sure(c), area[c]), Val(maybe(c), area[c])>> : c \in {c \in Out : Wet(c) /\ (o(c) < Val(sure(c), area[c]) - Slack(o(c)) \/ o(c) > Val(maybe(c), area[c]) + Slack(o(c)))}} \cup
     If((\E c \in Out : o(c) > 20000000) \/ Abs(all - tot) <= 2 + (2 * Cardinality(Out)), <<"total", r, all, tot>>)
NoHome == Wets = {} /\ \E r \in 1..Len(C.data) : \E c \in Cells : FallsOn(r)[c] > 0
Failed == IF C.bad \/ NoHome THEN If(O.rc # 0, <<"accepted">>)
  ELSE IF O.rc # 0 \/ ~O.read THEN {<<"status", O.rc>>}
  ELSE If(O.files, <<"files">>) \cup If(O.inputs, <<"inputs changed">>) \cup If(O.shape = <<IF C.timed THEN Len(C.data) ELSE 0, NY(C.out), NX(C.out)>>, <<"shape", O.shape>>) \cup
       If(O.axes, <<"axes">>) \cup If(O.time, <<"time">>) \cup If(O.atts, <<"attributes">>) \cup
       (IF O.shape = <<IF C.timed THEN Len(C.data) ELSE 0, NY(C.out), NX(C.out)>> THEN UNION {BadRec(r) : r \in 1..Len(C.data)} ELSE {})
VARIABLE told
View == <<C.id, told>>
TRInit == Init /\ told = FALSE
Tell == ~told /\ PrintT(<<"VERDICT", C.id, Failed>>) /\ told' = TRUE /\ UNCHANGED vars
TRNext == Tell
=============================================================================
