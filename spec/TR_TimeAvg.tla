----------------------------- MODULE TR_TimeAvg -----------------------------
EXTENDS TimeAvg, Json, IOUtils
TRCfgs == LET cs == ndJsonDeserialize(IOEnv.CASES) IN {cs[k] : k \in 1..Len(cs)}
O == C.obs
If(b, w) == IF b THEN {} ELSE {w}
Abs(a) == IF a < 0 THEN -a ELSE a
\* observed values are in thousandths
Near(o, m) == IF m[1] = Miss THEN o = Miss * 1000 ELSE Abs(o) < 2000000 /\ Abs(o * m[2] - m[1] * 1000) <= 2 * m[2]
\* the nearest integer, halves away from zero
Round(m) == IF m[1] >= 0 THEN (2 * m[1] + m[2]) \div (2 * m[2]) ELSE -((2 * (-m[1]) + m[2]) \div (2 * m[2]))
Same(k, o, m) == IF C.vars[k].int /\ m[1] # Miss THEN o = 1000 * Round(m) ELSE Near(o, m)
Kept == {k \in 1..NV : ~C.vars[k].skip}
G(s) == {s[q] : q \in 1..Len(s)}
Names == {C.vars[k].n : k \in Kept} \cup {C.T} \cup (IF C.hasx THEN {"x"} ELSE {}) \cup (IF HasTB THEN {TBName} ELSE {}) \cup (IF HasTB /\ ~Bnd THEN {"nv"} ELSE {})
Sub(a, b) == \E q \in 0..(Len(b) - Len(a)) : SubSeq(b, q + 1, q + Len(a)) = a
CM == <<"time:", "mean">>
BadVar(k) == LET y == O.vars[k]  v == C.vars[k] IN
  IF ~y.here THEN {<<"missing variable", v.n>>} ELSE
  If(y.t = v.t /\ y.d = v.d, <<"type or dimensions", v.n>>) \cup If(G(y.a) = G(v.a), <<"attributes", v.n, y.a>>) \cup If(y.z = v.z, <<"deflation", v.n, y.z>>) \cup
  (IF v.rec THEN (IF Len(y.x) # Len(outs) THEN {<<"records", v.n>>} ELSE
                  {<<"mean", v.n, q, c, y.x[q][c], outs[q].x[k][c]>> : <<q, c>> \in {p \in (1..Len(outs)) \X (1..v.size) : ~Same(k, y.x[p[1]][p[2]], outs[p[1]].x[k][p[2]])}}) \cup
                 (IF HasTB THEN If(Sub(CM, y.cm) /\ (Climo => Sub(<<"over">>, y.cm)), <<"cell_methods", v.n, y.cm>>) \cup If(v.cm = <<>> \/ Sub(v.cm, y.cm), <<"cell_methods lost", v.n, y.cm>>) ELSE {})
   ELSE If(Len(y.x) = 1 /\ \A c \in 1..v.size : Near(y.x[1][c], <<C.files[1].x[k][1][c], 1>>), <<"static", v.n, y.x>>))
Failed ==
  If((O.rc = 0) = (rc = 0), <<"exit", O.rc>>) \cup If(O.clean, <<"other files">>) \cup
  (IF rc # 0 \/ O.rc # 0 THEN {} ELSE IF ~O.ok THEN {<<"no output">>} ELSE
   If(O.fmt = C.fmt, <<"format", O.fmt>>) \cup
   If(O.nt = Len(outs), <<"records", O.nt>>) \cup
   If(G(O.names) \cap {"average_T1", "average_T2", "average_DT"} = {}, <<"average_ variables">>) \cup
   If({n \in G(O.names) : TRUE} = Names, <<"variables", O.names>>) \cup
   If(Len(O.time) = Len(outs) /\ \A q \in 1..Len(O.time) : Abs(2 * O.time[q] - 1000 * outs[q].time2) <= 2, <<"time", O.time, [q \in 1..Len(outs) |-> outs[q].time2]>>) \cup
   (IF HasTB THEN If(O.tbname = TBName, <<"bounds name", O.tbname>>) \cup
                  If(Len(O.tb) = Len(outs) /\ \A q \in 1..Len(O.tb) : \A e \in 1..2 : Abs(O.tb[q][e] - 1000 * outs[q].tb[e]) <= 2, <<"time bounds", O.tb, [q \in 1..Len(outs) |-> outs[q].tb]>>) \cup
                  If(IF TBName = "climatology_bounds" \/ C.bounds = "climatology" THEN O.tatt.climatology # "" /\ O.tatt.bounds = "" ELSE O.tatt.bounds # "" /\ O.tatt.climatology = "", <<"bounds attribute", O.tatt>>) ELSE {}) \cup
   If(O.tcopy, <<"time attributes">>) \cup
   If(G(O.gatts) = {[k |-> "title", v |-> "t"], [k |-> "filename", v |-> "out.nc"]}, <<"global attributes", O.gatts>>) \cup
   UNION {BadVar(k) : k \in Kept})
VARIABLE told
Tell == pc = "done" /\ ~told /\ PrintT(<<"VERDICT", C.id, Failed>>) /\ told' = TRUE /\ UNCHANGED vars
TRInit == Init /\ told = FALSE
TRNext == (Next /\ UNCHANGED told) \/ Tell
View == <<C.id, pc, f, r, rc, told>>
=============================================================================
