---------------------------- MODULE TR_Lonlat ----------------------------
(* A recorded run of make_hgrid (one tile) or make_vgrid against the specification. *)
EXTENDS Lonlat, Json, IOUtils
TRCfgs == LET cs == ndJsonDeserialize(IOEnv.CASES) IN {cs[k] : k \in 1..Len(cs)}
O == C.obs
If(b, w) == IF b THEN {} ELSE {w}
Near(o, a) == Len(o) = Cardinality(DOMAIN a) /\ \A i \in DOMAIN a : Abs(o[i + 1] - a[i]) <= 30
Vertical == C.type = "vertical"
Limits == [shape |-> 0, place |-> 100, dx |-> 50, dy |-> 50, area |-> 50, cap |-> 100, angle |-> 100, fold |-> 100, gauss |-> 10]
Failed ==
  IF pc = "refused" THEN If(O.rc # 0, <<"accepted">>) \cup If(~O.file, <<"written">>)
  ELSE IF C.type = "tripolar" /\ (Cardinality(DOMAIN ys) - 1) \in Joins THEN {}      \* no cap at all: not a tripolar grid
  ELSE IF Cardinality(DOMAIN xs) = 1 THEN {}      \* stretched so far that no cell fits: not specified
  ELSE IF O.rc # 0 \/ ~O.read THEN {<<"status", O.rc>>}
  ELSE If(O.others = <<>>, <<"files", O.others>>) \cup
       If(O.dims = <<Cardinality(DOMAIN xs) - 1, IF Vertical THEN 0 ELSE Cardinality(DOMAIN ys) - 1>>, <<"size", O.dims>>) \cup
       If(Near(O.xs, xs), <<"x", O.xs, xs>>) \cup
       (IF Vertical THEN If(O.vars = <<"zeta">>, <<"variables", O.vars>>)
        ELSE If(Near(O.ys, ys), <<"y", O.ys, ys>>) \cup
             If(O.vars = <<"angle_dx", "arcx", "area", "dx", "dy", "tile", "x", "y">>, <<"variables", O.vars>>) \cup
             If(O.tile = "tile1", <<"tile", O.tile>>) \cup
             (IF C.type = "tripolar" THEN If(O.join \in Joins, <<"join", O.join, Joins>>) ELSE {})) \cup
       {<<k, O.res[k]>> : k \in {q \in DOMAIN Limits : O.res[q] > Limits[q]}}
VARIABLE told
View == <<C.id, pc, told>>
TRInit == Init /\ told = FALSE
Tell == Done /\ ~told /\ PrintT(<<"VERDICT", C.id, Failed>>) /\ told' = TRUE /\ UNCHANGED vars
TRNext == (Next /\ UNCHANGED told) \/ Tell
=============================================================================
