------------------------------ MODULE TR_Land ------------------------------
EXTENDS Land, Json, IOUtils
TRCfgs == LET cs == ndJsonDeserialize(IOEnv.CASES) IN {cs[k] : k \in 1..Len(cs)}
O == C.obs
If(b, w) == IF b THEN {} ELSE {w}
CheckFile(q) ==
  LET w == O.outs[q]
      p == outs[q]
  IN  If(w.ok, <<"unreadable", q>>) \cup
      (IF ~w.ok THEN {} ELSE
       If(w.fmt = C.fmt, <<"format", q>>) \cup If(w.dims = p.dims, <<"dims", q>>) \cup
       If(w.gatts = Lst.gatts, <<"gatts", q>>) \cup If(Len(w.vars) = Len(p.vars), <<"nvars", q>>) \cup
       UNION { LET v == p.vars[k]
                   o == w.vars[k]
               IN If(o.n = v.n /\ o.t = v.t /\ o.d = v.d, <<"var", v.n, q>>) \cup
                  If(o.a = v.a, <<"atts", v.n, q>>) \cup If(o.x = v.x, <<"data", v.n, q>>) : k \in 1..Min(Len(p.vars), Len(w.vars)) })
Failed ==
  If((rc = 0) = (O.rc = 0), <<"exit", O.rc>>) \cup If(O.others, <<"other files touched">>) \cup
  If(\A k \in 1..Len(O.isc) : (O.isc[k].rc = 0) = O.isc[k].want, <<"is-compressed">>) \cup
  (IF rc = 0 THEN If(Len(O.outs) = Len(outs), <<"number of files">>) \cup UNION {CheckFile(q) : q \in 1..Min(Len(outs), Len(O.outs))} ELSE {}) \cup
  If(O.back, <<"round trip">>)
VARIABLE told
Tell == pc = "done" /\ ~told /\ PrintT(<<"VERDICT", C.id, Failed>>) /\ told' = TRUE /\ UNCHANGED vars
TRInit == Init /\ told = FALSE
TRNext == (Next /\ UNCHANGED told) \/ Tell
View == <<C.id, pc, i, rc, told>>
=============================================================================
