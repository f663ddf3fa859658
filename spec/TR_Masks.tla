----------------------------- MODULE TR_Masks -----------------------------
(* A recorded run of check_mask against the specification. *)
EXTENDS Masks, Json, IOUtils
TRCfgs == LET cs == ndJsonDeserialize(IOEnv.CASES) IN {cs[k] : k \in 1..Len(cs)}
O == C.obs
If(b, w) == IF b THEN {} ELSE {w}
Name(t) == "mask_table." \o ToString(Cardinality(t.mask)) \o "." \o ToString(t.lay[1]) \o "x" \o ToString(t.lay[2])
Want == {Name(t) : t \in tables}
BadFile(t) == LET fs == {f \in {O.files[k] : k \in 1..Len(O.files)} : f.name = Name(t)} IN
  IF fs = {} THEN {} ELSE LET f == CHOOSE f \in fs : TRUE IN
  If(f.n = Cardinality(t.mask) /\ f.lay = (IF Land THEN <<t.lay[1], t.lay[2], 6>> ELSE t.lay), <<"header", f.name, f.n, f.lay>>) \cup
  If({IF Land THEN f.list[k] ELSE <<f.list[k][1], f.list[k][2], 1>> : k \in 1..Len(f.list)} = t.mask /\ Len(f.list) = Cardinality(t.mask), <<"list", f.name, f.list, t.mask>>)
Failed == IF C.bad THEN If(O.rc # 0, <<"accepted">>) \cup If(O.dir = <<>>, <<"written">>)
          ELSE If(O.rc = 0, <<"status", O.rc>>) \cup If(O.inputs, <<"inputs changed">>) \cup
               If({O.dir[k] : k \in 1..Len(O.dir)} = Want, <<"files", {O.dir[k] : k \in 1..Len(O.dir)} \ Want, Want \ {O.dir[k] : k \in 1..Len(O.dir)}>>) \cup
               UNION {BadFile(t) : t \in tables}
VARIABLE told
View == <<C.id, np, told>>
TRInit == Init /\ told = FALSE
Tell == Done /\ ~told /\ PrintT(<<"VERDICT", C.id, Failed>>) /\ told' = TRUE /\ UNCHANGED vars
TRNext == (Next /\ UNCHANGED told) \/ Tell
=============================================================================
