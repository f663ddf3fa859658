------------------------------- MODULE Regrid -------------------------------
(* fregrid, first-order conservative remapping between grids given as tiles of
   longitude-latitude boxes.  Longitudes are integers on a circle of N units and
   a latitude edge k stands for asin(k/S), so every cell and every intersection
   has an integer area.  A run obtains the exchange grid of every output tile
   (from the grids, or from the weights an earlier run saved), then works through
   the requested time steps and levels of every field, one slice at a time. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANT Cfgs
VARIABLES cfg, pc, run, m, xg, saved, s, outs, first
vars == <<cfg, pc, run, m, xg, saved, s, outs, first>>
C == cfg
Miss == 99999
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
NX(t) == Len(t.lon) - 1
NY(t) == Len(t.lat) - 1
NCell(t) == NX(t) * NY(t)
I(t, c) == ((c - 1) % NX(t)) + 1
J(t, c) == ((c - 1) \div NX(t)) + 1
Area(t, c) == (t.lon[I(t, c) + 1] - t.lon[I(t, c)]) * (t.lat[J(t, c) + 1] - t.lat[J(t, c)])
Ov(a1, a2, b1, b2) == Max2(0, Min2(a2, b2) - Max2(a1, b1))
LonOv(a1, a2, b1, b2) == Ov(a1, a2, b1, b2) + Ov(a1 + C.N, a2 + C.N, b1, b2) + Ov(a1 - C.N, a2 - C.N, b1, b2) +
                         Ov(a1 + 2 * C.N, a2 + 2 * C.N, b1, b2) + Ov(a1 - 2 * C.N, a2 - 2 * C.N, b1, b2)
LonIn(t, c, u, d) == LonOv(t.lon[I(t, c)], t.lon[I(t, c) + 1], u.lon[I(u, d)], u.lon[I(u, d) + 1])
LatIn(t, c, u, d) == Ov(t.lat[J(t, c)], t.lat[J(t, c) + 1], u.lat[J(u, d)], u.lat[J(u, d) + 1])
\* the exchange cells of output cell d of tile u: {<<input tile, input cell, area>>}
Cells(u, d) == UNION {LET t == C.tin[n]
                          ii == {i \in 1..NX(t) : LonOv(t.lon[i], t.lon[i + 1], u.lon[I(u, d)], u.lon[I(u, d) + 1]) > 0}
                          jj == {j \in 1..NY(t) : Ov(t.lat[j], t.lat[j + 1], u.lat[J(u, d)], u.lat[J(u, d) + 1]) > 0}
                      IN {<<n, ((p[2] - 1) * NX(t)) + p[1], LonOv(t.lon[p[1]], t.lon[p[1] + 1], u.lon[I(u, d)], u.lon[I(u, d) + 1]) *
                                                           Ov(t.lat[p[2]], t.lat[p[2] + 1], u.lat[J(u, d)], u.lat[J(u, d) + 1])>> : p \in ii \X jj} : n \in 1..Len(C.tin)}
Exchange(u) == TLCEval([d \in 1..NCell(u) |-> Cells(u, d)])
Sum(S, f(_)) == MapThenSumSet(f, S)
\* weights apply to every field, unless some requested field names its own areas
UseWt == Len(C.wt) > 0 /\ \A k \in 1..Len(C.fields) : C.fields[k].kind # "meas"
Wt(n, c) == IF UseWt THEN C.wt[n][c] ELSE 1
Slices(f) == LET T == IF f.T THEN C.l1 - C.l0 + 1 ELSE 1
                 K == IF f.Z THEN C.k1 - C.k0 + 1 ELSE 1 IN T * f.nn * K
\* which input slice output slice q of field f comes from: time, then the diurnal axis, then level
Src(f, q) == LET K == IF f.Z THEN C.k1 - C.k0 + 1 ELSE 1
                 z == ((q - 1) % K)  n == ((q - 1) \div K) % f.nn  t == ((q - 1) \div K) \div f.nn
                 KI == IF f.Z THEN C.nz ELSE 1 IN
             ((((t + (IF f.T THEN C.l0 - 1 ELSE 0)) * f.nn) + n) * KI) + z + (IF f.Z THEN C.k0 ELSE 1)
\* the time step and level an area measure is read at
AreaIx(f, q) == IF f.mT THEN LET K == IF f.Z THEN C.k1 - C.k0 + 1 ELSE 1 IN (((q - 1) \div K) \div f.nn) + C.l0 ELSE 1
\* area measures are given in tenths of the cell
Frac(f, q, n, c) == IF f.kind = "meas" THEN f.m[AreaIx(f, q)][n][c] ELSE 1
\* value of one output cell: <<numerator, denominator>>, or Miss
Value(f, q, u, E, d) ==
  LET x == f.x[Src(f, q)]
      V == {e \in E : x[e[1]][e[2]] # Miss}
      w(e) == e[3] * Wt(e[1], e[2]) * Frac(f, q, e[1], e[2])
      num == Sum(V, LAMBDA e : x[e[1]][e[2]] * w(e))
      den == Sum(V, LAMBDA e : w(e))
  IN IF V = {} THEN <<Miss, 1>>
     ELSE IF f.kind = "sum" THEN <<num, 1>>
     ELSE IF den = 0 THEN <<0, 1>>
     ELSE IF C.target /\ ~f.vol THEN <<num * Sum(E, LAMBDA e : e[3] * Frac(f, q, e[1], e[2])), den * Area(u, d) * (IF f.kind = "meas" THEN 10 ELSE 1)>>
     ELSE <<num, den>>
----------------------------------------------------------------------------
Total == MapThenSumSet(LAMBDA k : Slices(C.fields[k]), 1..Len(C.fields))
\* the list of <<field, slice>> in the order they are written
Work == LET RECURSIVE w(_) w(k) == IF k > Len(C.fields) THEN <<>> ELSE [q \in 1..Slices(C.fields[k]) |-> <<k, q>>] \o w(k + 1) IN w(1)
Init == /\ cfg \in Cfgs /\ pc = "exchange" /\ run = 1 /\ m = 1 /\ xg = <<>> /\ saved = <<>> /\ s = 1 /\ outs = <<>> /\ first = <<>>
\* the exchange grid of one output tile, computed or taken from saved weights
Compute == /\ pc = "exchange" /\ m <= Len(C.tout)
           /\ xg' = Append(xg, Exchange(C.tout[m])) /\ m' = m + 1
           /\ UNCHANGED <<cfg, pc, run, saved, s, outs, first>>
Read == /\ pc = "exchange" /\ m <= Len(saved)
        /\ xg' = Append(xg, saved[m]) /\ m' = m + 1
        /\ UNCHANGED <<cfg, pc, run, saved, s, outs, first>>
Ready == /\ pc = "exchange" /\ m > Len(C.tout)
         /\ pc' = "slices" /\ saved' = (IF C.remap THEN xg ELSE saved)
         /\ UNCHANGED <<cfg, run, m, xg, s, outs, first>>
Slice == /\ pc = "slices" /\ s <= Len(Work)
         /\ LET k == Work[s][1]  q == Work[s][2]  f == C.fields[k] IN
            outs' = Append(outs, TLCEval([n \in 1..Len(C.tout) |-> [d \in 1..NCell(C.tout[n]) |-> Value(f, q, C.tout[n], xg[n][d], d)]]))
         /\ s' = s + 1 /\ UNCHANGED <<cfg, pc, run, m, xg, saved, first>>
Finish == /\ pc = "slices" /\ s > Len(Work)
          /\ pc' = "done" /\ first' = (IF run = 1 THEN outs ELSE first)
          /\ UNCHANGED <<cfg, run, m, xg, saved, s, outs>>
Again == /\ pc = "done" /\ run < C.runs
         /\ run' = run + 1 /\ pc' = "exchange" /\ m' = 1 /\ xg' = <<>> /\ s' = 1 /\ outs' = <<>>
         /\ UNCHANGED <<cfg, saved, first>>
Next == Compute \/ Read \/ Ready \/ Slice \/ Finish \/ Again
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Ready1 == pc = "done"
AreaSum(E) == Sum(E, LAMBDA e : e[3])
\* no part of an output cell is counted twice; a covered cell is counted completely
Tiling == Ready1 => \A n \in 1..Len(C.tout) : \A d \in 1..NCell(C.tout[n]) :
             /\ AreaSum(xg[n][d]) <= Area(C.tout[n], d)
             /\ C.full => AreaSum(xg[n][d]) = Area(C.tout[n], d)
\* nor is a part of an input cell
InTiling == Ready1 => \A n \in 1..Len(C.tin) : \A c \in 1..NCell(C.tin[n]) :
             Sum(UNION {{<<o, d, e>> : e \in {e \in xg[o][d] : e[1] = n /\ e[2] = c}} : <<o, d>> \in UNION {{<<o, d>> : d \in 1..NCell(C.tout[o])} : o \in 1..Len(C.tout)}}, LAMBDA y : y[3][3]) <= Area(C.tin[n], c)
\* a mean never leaves the range of the values it is taken from
Bounded == Ready1 /\ ~C.target => \A y \in 1..Len(Work) : LET k == Work[y][1]  q == Work[y][2]  f == C.fields[k] IN
             f.kind # "sum" => \A n \in 1..Len(C.tout) : \A d \in 1..NCell(C.tout[n]) :
               LET v == outs[y][n][d]  x == f.x[Src(f, q)]
                   vs == {x[e[1]][e[2]] : e \in xg[n][d]} \ {Miss} IN
               IF vs = {} THEN v[1] = Miss ELSE v[1] # Miss /\ (v = <<0, 1>> \/ ((\E a \in vs : a * v[2] <= v[1]) /\ (\E a \in vs : a * v[2] >= v[1])))
\* a later run, with or without the saved weights, produces the same
SameAgain == Ready1 => outs = first
\* a sum field without missing values is carried over completely when the output covers the input
Conserved == Ready1 /\ C.over /\ ~UseWt => \A y \in 1..Len(Work) : LET k == Work[y][1]  q == Work[y][2]  f == C.fields[k]  x == f.x[Src(f, q)] IN
             f.kind = "sum" => Sum(UNION {{<<n, d>> : d \in 1..NCell(C.tout[n])} : n \in 1..Len(C.tout)}, LAMBDA p : IF outs[y][p[1]][p[2]][1] = Miss THEN 0 ELSE outs[y][p[1]][p[2]][1])
                             = Sum(UNION {{<<n, c>> : c \in 1..NCell(C.tin[n])} : n \in 1..Len(C.tin)}, LAMBDA p : IF x[p[1]][p[2]] = Miss THEN 0 ELSE x[p[1]][p[2]] * Area(C.tin[p[1]], p[2]))
\* regridding onto the same grid changes nothing
Identity == Ready1 /\ C.tin = C.tout /\ ~C.target => \A y \in 1..Len(Work) : LET k == Work[y][1]  f == C.fields[k]  x == f.x[Src(f, Work[y][2])] IN
             (f.kind = "mean" /\ ~UseWt) => \A n \in 1..Len(C.tout) : \A d \in 1..NCell(C.tout[n]) :
                LET v == outs[y][n][d] IN IF x[n][d] = Miss THEN v[1] = Miss ELSE v[1] = x[n][d] * v[2]
=============================================================================
