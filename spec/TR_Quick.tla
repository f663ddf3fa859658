---------------------------- MODULE TR_Quick ----------------------------
(* A recorded run of make_quick_mosaic against the specification.  Areas are in millionths of the cell.       *)
EXTENDS Quick, Json, IOUtils
TRCfgs == LET cs == ndJsonDeserialize(IOEnv.CASES) IN {cs[k] : k \in 1..Len(cs)}
O == C.obs
Abs(a) == IF a < 0 THEN -a ELSE a
If(b, w) == IF b THEN {} ELSE {w}
Refused == C.bad \/ \E t \in Tiles : \E c \in 1..NCell(t) : LandOf(t, c) > One
\* an exchange grid: [i, j, i2, j2, area, distances are zero]
BadX(r, t, x, what, share(_)) ==
  LET want == {c \in 1..NCell(t) : share(c) > 0}
      at(e) == ((e[2] - 1) * C.nx[t]) + e[1]
      ok(e) == e[1] \in 1..C.nx[t] /\ e[2] \in 1..C.ny[t] /\ e[3] = e[1] /\ e[4] = e[2] /\ e[6] = 0 /\ Abs(e[5] - (125 * share(at(e)))) <= 60
  IN {<<r, what, t, x[k]>> : k \in {k \in 1..Len(x) : ~ok(x[k])}} \cup If({at(x[k]) : k \in 1..Len(x)} = want /\ Len(x) = Cardinality(want), <<r, what \o " cells", t>>)
BadMask(r, t, m, what, share(_)) == {<<r, what, t, c, m[c]>> : c \in {c \in 1..NCell(t) : Len(m) < c \/ Abs(m[c] - (125 * share(c))) > 2}}
BadTile(r, o, t) ==
  LET l == TLCEval([c \in 1..NCell(t) |-> LandOf(t, c)])  z == o.tiles[t] IN
  BadX(r, t, z.axl, "aXl", LAMBDA c : l[c]) \cup BadX(r, t, z.axo, "aXo", LAMBDA c : One - l[c]) \cup BadX(r, t, z.lxo, "lXo", LAMBDA c : One - l[c]) \cup
  BadMask(r, t, z.lmask, "land mask", LAMBDA c : l[c]) \cup BadMask(r, t, z.omask, "ocean mask", LAMBDA c : One - l[c]) \cup
  LET s == C.names[t] IN
  If(z.contact = <<"atmos_mosaic:" \o s \o "::land_mosaic:" \o s, "atmos_mosaic:" \o s \o "::ocean_mosaic:" \o s, "land_mosaic:" \o s \o "::ocean_mosaic:" \o s>>, <<r, "contact", t, z.contact>>) \cup
  If(z.file = <<"atmos_mosaic_" \o s \o "Xland_mosaic_" \o s \o ".nc", "atmos_mosaic_" \o s \o "Xocean_mosaic_" \o s \o ".nc", "land_mosaic_" \o s \o "Xocean_mosaic_" \o s \o ".nc">>, <<r, "file", t, z.file>>)
BadRun(r, o, topog) ==
  IF o.rc # 0 \/ ~o.read THEN {<<r, "status", o.rc>>}
  ELSE If(o.files, <<r, "files">>) \cup If(o.inputs, <<r, "inputs changed">>) \cup If(o.copies, <<r, "copies">>) \cup
       If(o.mosaic = <<"./", C.solo, "atmos_mosaic", "./", C.solo, "land_mosaic", "./", C.solo, "ocean_mosaic">>, <<r, "mosaic", o.mosaic>>) \cup
       If(o.topog = (IF topog THEN <<"./", C.topog>> ELSE <<>>), <<r, "topog", o.topog>>) \cup
       IF Len(o.tiles) # Len(C.nx) THEN {<<r, "tiles", Len(o.tiles)>>} ELSE UNION {BadTile(r, o, t) : t \in Tiles}
Failed == IF Refused THEN If(O.rc # 0 /\ O.inputs, <<"not refused">>)
          ELSE BadRun("first", O, C.kind \in {"depth", "area"}) \cup (IF C.twice /\ O.rc = 0 THEN BadRun("again", C.obs2, FALSE) ELSE {})
VARIABLE told
View == <<C.id, told>>
TRInit == cfg \in Cfgs /\ pc = "divide" /\ n = 1 /\ land = <<>> /\ axl = <<>> /\ axo = <<>> /\ lxo = <<>> /\ told = FALSE
Tell == ~told /\ PrintT(<<"VERDICT", C.id, Failed>>) /\ told' = TRUE /\ UNCHANGED vars
TRNext == Tell
=========================================================================
