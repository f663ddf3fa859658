--------------------------- MODULE TR_Regional ---------------------------
(* A recorded run of make_regional_mosaic.  C.gx and C.gy are the points of the tile, O.x and O.y those of the  *)
(* region, as texts of the numbers.                                                                              *)
EXTENDS Regional, Json, IOUtils
TRCfgs == LET cs == ndJsonDeserialize(IOEnv.CASES) IN {cs[k] : k \in 1..Len(cs)}
O == C.obs
If(b, w) == IF b THEN {} ELSE {w}
Num == ToString(C.tile)
Bad == If(Len(O.x) = NQ /\ Len(O.y) = NQ /\ \A q \in 1..Len(O.x) : Len(O.x[q]) = NP, <<"shape">>) \cup
       (IF Len(O.x) = NQ /\ (\A q \in 1..NQ : Len(O.x[q]) = NP)
        THEN {<<"point", p, q>> : p \in {p \in 1..NP : \E q \in 1..NQ : O.x[q][p] # C.gx[PointY(q)][PointX(p)] \/ O.y[q][p] # C.gy[PointY(q)][PointX(p)]}, q \in {0}} ELSE {})
Failed == IF ~Good \/ C.bad THEN If(O.rc # 0 /\ O.inputs, <<"not refused">>)
          ELSE IF O.rc # 0 \/ ~O.read THEN {<<"status", O.rc>>}
          ELSE If(O.inputs, <<"inputs changed">>) \cup If(O.new = <<"regional_grid.tile" \o Num \o ".nc", "regional_mosaic.nc">>, <<"files", O.new>>) \cup
               If(O.names = <<"tile" \o Num, "regional_mosaic", "regional_grid.tile" \o Num \o ".nc", "tile" \o Num, C.desc>>, <<"names", O.names>>) \cup
               If(O.ntiles = 1, <<"ntiles", O.ntiles>>) \cup If(O.remap, <<"remapped differently">>) \cup Bad
VARIABLE told
View == <<C.id, told>>
TRInit == cfg \in Cfgs /\ pc = "look" /\ rows = <<>> /\ told = FALSE
Tell == ~told /\ PrintT(<<"VERDICT", C.id, Failed>>) /\ told' = TRUE /\ UNCHANGED vars
TRNext == Tell
==========================================================================
