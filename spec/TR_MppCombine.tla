--------------------------- MODULE TR_MppCombine ---------------------------
(* Runs of the real tool checked against MppCombine: each recorded case starts *)
(* the specification in the recorded configuration; when the specification is  *)
(* done, its result is compared with what the tool left behind.                *)
EXTENDS MppCombine, Json, IOUtils
TRCfgs == LET cs == ndJsonDeserialize(IOEnv.CASES) IN {cs[i] : i \in 1..Len(cs)}
O == C.obs

OutFmt == IF C.fmtopt = "64" THEN "64bit" ELSE IF C.fmtopt = "n4" THEN "nc4c"
          ELSE IF C.fmtin \in {"classic", "64bit"} THEN "64bit" ELSE C.fmtin

DimSize(d) == IF C.dims[d].rec THEN Max(nrecs, 0) ELSE C.dims[d].full
ExpDims == [d \in 1..Len(C.dims) |-> [n |-> C.dims[d].n, s |-> DimSize(d), u |-> C.dims[d].rec]]
ExpAtts(v) == SelectSeq(C.vars[v].a, LAMBDA a : a.k # "domain_decomposition")
ExpGatts == LET s == SelectSeq(C.gatts, LAMBDA a : a.k # "NumFilesInSet")
            IN  [i \in 1..Len(s) |-> IF s[i].k = "filename" THEN [s[i] EXCEPT !.v = C.outname] ELSE s[i]]
ExpDefl(v) == IF Len(C.vars[v].d) > 0 /\ OutFmt \in {"nc4", "nc4c"} THEN C.deflate ELSE 0

Structure ==
  {<<"dims">>  : x \in IF O.out.dims = ExpDims THEN {} ELSE {1}} \cup
  {<<"gatts">> : x \in IF O.out.gatts = ExpGatts THEN {} ELSE {1}} \cup
  {<<"format", O.out.fmt>> : x \in IF O.out.fmt = OutFmt THEN {} ELSE {1}} \cup
  {<<"nvars">> : x \in IF Len(O.out.vars) = NV THEN {} ELSE {1}} \cup
  UNION { LET w == O.out.vars[v] IN
     {<<"var", C.vars[v].n>> : x \in IF w.n = C.vars[v].n /\ w.t = C.vars[v].t
                                    /\ w.d = [j \in 1..Len(C.vars[v].d) |-> C.dims[C.vars[v].d[j]].n] THEN {} ELSE {1}} \cup
     {<<"atts", C.vars[v].n>> : x \in IF w.a = ExpAtts(v) THEN {} ELSE {1}} \cup
     {<<"deflate", C.vars[v].n>> : x \in IF w.z = ExpDefl(v) THEN {} ELSE {1}}
     : v \in 1..Min(NV, Len(O.out.vars)) }

Data == UNION { IF v <= Len(O.out.vars) /\ O.out.vars[v].x = out[v] THEN {} ELSE {<<"data", C.vars[v].n>>} : v \in 1..NV }

Failed ==
  {<<"exit", O.rc>> : x \in IF (rc = 0) = (O.rc = 0) THEN {} ELSE {1}} \cup
  {<<"removed">> : x \in IF removed = Range(O.removed) THEN {} ELSE {1}} \cup
  {<<"touched other files">> : x \in IF O.others THEN {} ELSE {1}} \cup
  {<<"inputs modified">> : x \in IF O.inputs THEN {} ELSE {1}} \cup
  (IF C.outexists THEN {<<"clobbered">> : x \in IF O.outsame THEN {} ELSE {1}} ELSE {}) \cup
  (IF ~C.outexists /\ rc = 9 THEN {<<"output left">> : x \in IF ~O.exists THEN {} ELSE {1}} ELSE {}) \cup
  (IF ~C.outexists /\ rc = 0 THEN {<<"no output">> : x \in IF O.exists /\ O.ok THEN {} ELSE {1}} ELSE {}) \cup
  (IF ~C.outexists /\ ondisk /\ Comparable /\ rc \in {0, 1} /\ O.ok
   THEN Structure \cup Data
   ELSE IF ~C.outexists /\ ondisk /\ Comparable THEN {<<"unreadable output">>} ELSE {})

VARIABLE told
Tell == pc = "done" /\ ~told /\ PrintT(<<"VERDICT", C.id, Failed>>) /\ told' = TRUE /\ UNCHANGED vars
TRInit == Init /\ told = FALSE
TRNext == (Next /\ UNCHANGED told) \/ Tell
TRExact == (pc = "done" /\ ~told /\ rc = 0) => Whole
View == <<C.id, pc, block, f, nrecs, bf, buf, out, ondisk, closed, inerr, outerr, removed, opened, cnt, defn, vague, rc, told>>
=============================================================================
