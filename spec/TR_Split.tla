------------------------------ MODULE TR_Split ------------------------------
EXTENDS Split, Json, IOUtils
TRCfgs == LET cs == ndJsonDeserialize(IOEnv.CASES) IN {cs[k] : k \in 1..Len(cs)}
O == C.obs
If(b, w) == IF b THEN {} ELSE {w}
FileOf(o) == IF o = "one" THEN "one.nc" ELSE o
ObsF == {O.outs[q].f : q \in 1..Len(O.outs)}
Got(o) == O.outs[CHOOSE q \in 1..Len(O.outs) : O.outs[q].f = FileOf(o)]
GVars(x) == {x.vars[q].n : q \in 1..Len(x.vars)}
GA(s) == {s[q] : q \in 1..Len(s)}
GV(x, n) == x.vars[CHOOSE q \in 1..Len(x.vars) : x.vars[q].n = n]
Gone == {"scalar_axis"}
KeepD(k, n, r) == LET D == SelectSeq(V(k, n).d, LAMBDA d : C.one \/ d \notin Gone) IN [q \in 1..Len(D) |-> To(r, D[q])]
\* attributes NCO itself may add
Extra == {"cell_methods", "_FillValue", "_Storage"}
BadVar(o, x, m) ==
  LET k == outs[o].from[1]  n == outs[o].var  r == outs[o].ren  w == To(r, m)  y == GV(x, w)
      ea == IF C.one THEN Atts(k, m) ELSE OutAtts(k, n, m)
  IN  If(y.t = V(k, m).t, <<"type", o, m>>) \cup If(y.d = KeepD(k, m, r), <<"dimensions", o, m, y.d>>) \cup
      If(y.x = Data(o, m), <<"data", o, m>>) \cup
      {<<"attribute lost", o, m, a>> : a \in ea \ GA(y.a)} \cup {<<"attribute", o, m, a>> : a \in {b \in GA(y.a) \ ea : b.k \notin Extra}}
BadOut(o) ==
  LET x == Got(o)  r == outs[o].ren  k == outs[o].from[1]  need == IF C.one THEN outs[o].need ELSE outs[o].need \ Gone
      back == {m \in {F(k).vars[q].n : q \in 1..Len(F(k).vars)} : To(r, m) \in GVars(x)}
      Fn(g) == {a.v : a \in {b \in GA(g) : b.k = "filename"}}
  IN  IF ~x.ok THEN {<<"unreadable", o>>} ELSE
      {<<"missing variable", o, m>> : m \in {q \in need : To(r, q) \notin GVars(x)}} \cup
      {<<"unknown variable", o, w>> : w \in {q \in GVars(x) : q \notin {To(r, m) : m \in back}}} \cup
      UNION {BadVar(o, x, m) : m \in back} \cup
      If((C.hasfn /\ ~C.one) => Fn(x.gatts) = {IF C.one THEN "one.nc" ELSE outs[o].var \o F(k).tile \o ".nc"}, <<"filename attribute", o>>) \cup
      If(C.one \/ "title" \in {a.k : a \in GA(x.gatts)}, <<"global attribute lost", o>>) \cup
      If(C.one \/ Range(C.exts[FileOf(o)]) = outs[o].ext, <<"external_variables", o, C.exts[FileOf(o)], outs[o].ext>>)
Line(n) == << n, Val(Atts(1, n), "long_name"), Val(Atts(1, n), "units") >>
Failed ==
  If(O.rc = rc, <<"exit", O.rc>>) \cup If(O.same, <<"inputs changed">>) \cup If(O.left = <<>>, <<"left behind", O.left>>) \cup
  {<<"no file", o>> : o \in {p \in Known : FileOf(p) \notin ObsF}} \cup
  {<<"extra file", p>> : p \in ObsF \ {FileOf(o) : o \in Known}} \cup
  UNION {BadOut(o) : o \in {p \in Known : FileOf(p) \in ObsF}} \cup
  If(~C.log \/ O.readme = [q \in 1..Len(TimeVarying(1)) |-> Line(TimeVarying(1)[q])], <<"README", O.readme>>)
VARIABLE told
Tell == pc = "done" /\ ~told /\ PrintT(<<"VERDICT", C.id, Failed>>) /\ told' = TRUE /\ UNCHANGED vars
TRInit == Init /\ told = FALSE
TRNext == (Next /\ UNCHANGED told) \/ Tell
View == <<C.id, pc, f, v, rc, told>>
=============================================================================
