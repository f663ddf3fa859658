----------------------------- MODULE TR_Regrid -----------------------------
EXTENDS Regrid, Json, IOUtils
TRCfgs == LET cs == ndJsonDeserialize(IOEnv.CASES) IN {cs[k] : k \in 1..Len(cs)}
O == C.obs
If(b, w) == IF b THEN {} ELSE {w}
Abs(a) == IF a < 0 THEN -a ELSE a
G(q) == {q[k] : k \in 1..Len(q)}
\* an observed value, scaled, against the exact one
Near(o, v) == IF v[1] = Miss THEN o = Miss
              ELSE o # Miss /\ Abs(o) < 2000000 * 1000 /\ LET e == (v[1] * C.scale) \div v[2] IN Abs(o - e) <= 2 + (Abs(e) \div 100000)
\* an integer field: within one unit, and never outside the values it comes from
NearInt(o, v, lo, hi) == IF v[1] = Miss THEN o = Miss
              ELSE o # Miss /\ LET e == (v[1] * C.scale) \div v[2] IN Abs(o - e) < C.scale /\ (C.target \/ v = <<0, 1>> \/ (lo * C.scale <= o /\ o <= hi * C.scale))
Ok(f, q, n, d, o, v) == IF ~f.int THEN Near(o, v)
                        ELSE LET x == f.x[Src(f, q)]  vs == {x[e[1]][e[2]] : e \in xg[n][d]} \ {Miss} IN
                             IF v[1] # Miss /\ vs # {} THEN NearInt(o, v, Min(vs), Max(vs)) ELSE NearInt(o, v, 0, 0)
Base(k) == LET RECURSIVE b(_) b(j) == IF j = 1 THEN 0 ELSE b(j - 1) + Slices(C.fields[j - 1]) IN b(k)
\* integer fields without a missing value cannot hold the mark of an uncovered cell, and packed ones change it;
\* a packed field's zero weight means unpacked zero
Judge(f, v) == ~(v[1] = Miss /\ f.nomiss /\ (f.int \/ f.pk)) /\ ~(f.pk /\ v = <<0, 1>>)
BadField(r, n, k) ==
  LET f == C.fields[k]  y == O.runs[r].tiles[n].fields[k]  nc == NCell(C.tout[n]) IN
  IF ~y.here THEN {<<"missing field", r, n, f.n>>} ELSE
  If(y.t = f.t /\ y.d = f.d, <<"type or dimensions", f.n, y.t, y.d>>) \cup
  If(G(y.a) = {a \in G(f.a) : a.k # "interp_method"} \cup {[k |-> "interp_method", v |-> "conserve_order1"]}, <<"attributes", f.n, y.a>>) \cup
  If(C.zlib = -1 \/ y.z = C.zlib, <<"deflation", f.n, y.z>>) \cup
  (IF Len(y.x) # Slices(f) THEN {<<"slices", f.n, Len(y.x)>>}
   ELSE {<<"value", r, n, f.n, q, y.x[q], [d \in 1..nc |-> outs[Base(k) + q][n][d]]>> : q \in {q \in 1..Slices(f) : Len(y.x[q]) # nc \/ \E d \in 1..nc : Judge(f, outs[Base(k) + q][n][d]) /\ ~Ok(f, q, n, d, y.x[q][d], outs[Base(k) + q][n][d])}})
Used(k) == CASE k = "X" -> TRUE [] k = "Y" -> TRUE
             [] k = "Z" -> \E j \in 1..Len(C.fields) : C.fields[j].Z
             [] k = "T" -> \E j \in 1..Len(C.fields) : C.fields[j].T
             [] k = "N" -> \E j \in 1..Len(C.fields) : C.fields[j].nn = 2
U == 360000 \div C.N
Close(a, b) == Len(a) = Len(b) /\ \A q \in 1..Len(a) : Abs(a[q] - b[q]) <= 5
Pairs(e) == [q \in 1..(2 * (Len(e) - 1)) |-> e[((q - 1) \div 2) + 1 + ((q - 1) % 2)]]
Cut(v, a, b) == [q \in 1..(b - a + 1) |-> v[a + q - 1] * 1000]
AxisVal(u, k) == CASE k = "X" -> [q \in 1..NX(u) |-> ((u.lon[q] + u.lon[q + 1]) * U) \div 2]
                   [] k = "Y" -> IF C.byname THEN LET h == (u.laty[Len(u.laty)] - u.laty[1]) \div NY(u) IN [q \in 1..NY(u) |-> u.laty[1] + ((2 * q - 1) * h) \div 2] ELSE u.latc
                   [] k = "Z" -> Cut(C.zv, C.k0, C.k1)
                   [] k = "T" -> Cut(C.tv, C.l0, C.l1)
                   [] OTHER -> <<6000, 18000>>
Edges(u, k) == CASE k = "X" -> [q \in 1..(NX(u) + 1) |-> u.lon[q] * U] [] k = "Y" -> u.laty [] k = "Z" -> Cut(C.zb, C.k0, C.k1 + 1)
AxisBnd(u, k) == IF k = "T" THEN (IF C.bnd.T = "none" THEN <<>> ELSE [q \in 1..(2 * (C.l1 - C.l0 + 1)) |-> C.tb[C.l0 + ((q - 1) \div 2)][((q - 1) % 2) + 1] * 1000])
                 ELSE IF k = "N" THEN <<>>
                 ELSE IF k = "Z" THEN (CASE C.bnd.Z = "none" -> <<>> [] C.bnd.Z = "edges" -> Edges(u, k) [] OTHER -> Pairs(Edges(u, k)))
                 ELSE IF C.bnd[k] = "edges" /\ ~C.std THEN Edges(u, k) ELSE Pairs(Edges(u, k))
BadAxis(r, n, j) == LET a == O.runs[r].tiles[n].axes[j]  u == C.tout[n] IN
  IF ~Used(a.k) THEN {} ELSE IF ~a.here THEN {<<"missing axis", a.k>>} ELSE
  If(Close(a.v, AxisVal(u, a.k)), <<"axis", r, n, a.k, a.v, AxisVal(u, a.k)>>) \cup If(Close(a.b, AxisBnd(u, a.k)), <<"axis bounds", r, n, a.k, a.b, AxisBnd(u, a.k)>>) \cup
  If(Len(a.a) > 0, <<"axis attribute", a.k>>) \cup If(a.t = (IF a.k \in {"X", "Y"} /\ ~C.std /\ C.axt # "int" THEN C.axt ELSE "double"), <<"axis type", a.k, a.t>>)
BadRun(r) == LET R == O.runs[r] IN
  If(R.rc = 0, <<"exit", r, R.np, R.rc>>) \cup
  UNION {LET t == R.tiles[n] IN IF ~t.here THEN {<<"no output", r, R.np, n>>} ELSE
         If(t.fmt = C.fmt, <<"format", t.fmt>>) \cup If(G(t.gatts) = G(C.gatts), <<"global attributes", t.gatts>>) \cup
         If(t.nt = (IF Used("T") THEN C.l1 - C.l0 + 1 ELSE 0), <<"records", t.nt>>) \cup
         UNION {BadField(r, n, k) : k \in 1..Len(C.fields)} \cup UNION {BadAxis(r, n, j) : j \in 1..Len(t.axes)} : n \in 1..Len(C.tout)}
\* the saved weights are exactly the intersections
Exact(n) == UNION {{<<e[1], e[2], d, e[3] * 1000>> : e \in xg[n][d]} : d \in 1..NCell(C.tout[n])}
BadRemap(n) == LET y == O.remap[n]  E == Exact(n) IN
  IF ~y.here THEN If(E = {}, <<"no remap file", n>>) ELSE
  If(Len(y.e) = Cardinality(E) /\ \A k \in 1..Len(y.e) : \E e \in E : e[1] = y.e[k][1] /\ e[2] = y.e[k][2] /\ e[3] = y.e[k][3] /\ Abs(e[4] - y.e[k][4]) <= 1, <<"exchange grid", n, Len(y.e), Cardinality(E)>>)
Failed == If(O.clean, <<"other files">>) \cup If(O.wrc = 0, <<"weights only", O.wrc>>) \cup UNION {BadRun(r) : r \in 1..Len(O.runs)} \cup UNION {BadRemap(n) : n \in 1..Len(O.remap)}
VARIABLE told
Tell == pc = "done" /\ ~told /\ PrintT(<<"VERDICT", C.id, Failed>>) /\ told' = TRUE /\ UNCHANGED vars
TRInit == Init /\ told = FALSE
TRNext == (Next /\ UNCHANGED told) \/ Tell
View == <<C.id, pc, m, s, told>>
=============================================================================
