---------------------------- MODULE TR_Scatter ----------------------------
EXTENDS Scatter, Json, IOUtils
TRCfgs == LET cs == ndJsonDeserialize(IOEnv.CASES) IN {cs[k] : k \in 1..Len(cs)}
O == C.obs
If(b, w) == IF b THEN {} ELSE {w}
CheckPiece(q) ==
  LET w == O.pieces[q]
      p == pieces[q]
  IN  If(w.ok, <<"unreadable", q>>) \cup
      (IF ~w.ok THEN {} ELSE
       If(w.fmt = C.fmt, <<"format", q>>) \cup
       If(w.dims = p.dims, <<"dims", q>>) \cup
       If(w.nfs = NP, <<"NumFilesInSet", q, w.nfs>>) \cup
       If(w.gatts = C.gatts, <<"gatts", q>>) \cup
       If(Len(w.vars) = Len(C.vars), <<"nvars", q>>) \cup
       UNION { LET v == C.vars[k]
                   o == w.vars[k]
               IN If(o.n = v.n /\ o.t = v.t /\ o.d = [j \in 1..Len(v.d) |-> C.dims[v.d[j]].n], <<"var", v.n, q>>) \cup
                  If(o.a = v.a, <<"atts", v.n, q>>) \cup
                  If(o.dd = p.dd[k], <<"domain_decomposition", v.n, q>>) \cup
                  If(o.x = p.x[k], <<"data", v.n, q>>) : k \in 1..Min(Len(C.vars), Len(w.vars)) })
Failed ==
  If((rc = 0) = (O.rc = 0), <<"exit", O.rc>>) \cup
  If(O.others, <<"other files touched">>) \cup
  (IF rc = 0 THEN If(Len(O.pieces) = Len(pieces), <<"number of pieces">>) \cup
                  UNION {CheckPiece(q) : q \in 1..Min(Len(pieces), Len(O.pieces))} ELSE {}) \cup
  \* scatter followed by combine
  (IF C.both /\ rc = 0 /\ ~C.dry THEN
     If(O.crc = 0, <<"combine exit", O.crc>>) \cup
     If(O.back.ok, <<"combined file unreadable">>) \cup
     (IF ~O.back.ok THEN {} ELSE
      If(O.back.dims = [d \in 1..Len(C.dims) |-> [n |-> C.dims[d].n, s |-> C.dims[d].s, u |-> C.dims[d].u]], <<"combined dims">>) \cup
      If(O.back.gatts = C.gatts, <<"combined gatts">>) \cup
      If(Len(O.back.vars) = Len(C.vars), <<"combined nvars">>) \cup
      UNION { LET v == C.vars[k]
                  o == O.back.vars[k]
              IN If(o.n = v.n /\ o.t = v.t /\ o.d = [j \in 1..Len(v.d) |-> C.dims[v.d[j]].n], <<"combined var", v.n>>) \cup
                 If(o.a = v.a, <<"combined atts", v.n>>) \cup If(o.dd = <<>>, <<"combined dd", v.n>>) \cup
                 If(o.x = v.x, <<"combined data", v.n>>) : k \in 1..Min(Len(C.vars), Len(O.back.vars)) })
   ELSE {})
VARIABLE told
Tell == pc = "done" /\ ~told /\ PrintT(<<"VERDICT", C.id, Failed>>) /\ told' = TRUE /\ UNCHANGED vars
TRInit == Init /\ told = FALSE
TRNext == (Next /\ UNCHANGED told) \/ Tell
View == <<C.id, pc, i, rc, told>>
=============================================================================
