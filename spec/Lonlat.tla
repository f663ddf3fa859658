------------------------------ MODULE Lonlat ------------------------------
(* make_hgrid's one-tile grids and make_vgrid: the axes asked for, region after region, then the grid.      *)
(* type: regular, tripolar, fplane, betaplane, cartesian, spectral, text, vertical                          *)
EXTENDS Axis, FiniteSets
CONSTANTS Cfgs
VARIABLES cfg, pc, xs, ys
vars == <<cfg, pc, xs, ys>>
C == cfg
Regions == C.type \in {"regular", "tripolar", "fplane", "betaplane", "vertical"}
Axis(b, n, d) == IF Len(n) > 0 THEN Spline(b, n, C.center) ELSE Old(b, d, C.center, C.stretch)
\* is an axis well asked for?
Good(b, n, d, nb) ==
  /\ nb >= 2 /\ nb = Len(b)
  /\ \/ Len(n) = nb - 1 /\ d = <<>> /\ (C.center # "none" => \A k \in 1..Len(n) : n[k] % 2 = 0)
     \/ Len(d) = nb /\ n = <<>> /\ (C.center # "none" \/ nb = 2) /\ Whole(b, d, C.stretch) /\ (C.stretch # 1 => C.center # "t_cell")
Accepted ==
  /\ C.center \in {"none", "t_cell", "c_cell"}
  /\ Regions => Good(C.xb, C.xn, C.xd, C.xnb) /\ (C.type # "vertical" => Good(C.yb, C.yn, C.yd, C.ynb) /\ ((C.xn = <<>>) = (C.yn = <<>>)))
  /\ C.type = "tripolar" => Len(C.xb) = 2
  /\ C.type \in {"fplane", "betaplane"} => C.flat \in (-90)..90
  /\ C.type = "cartesian" => Len(C.xb) = 2 /\ Len(C.yb) = 2 /\ Len(C.xn) = 1 /\ Len(C.yn) = 1 /\ C.sdx # 0 /\ C.sdy # 0
  /\ C.type = "spectral" => Len(C.xn) = 1 /\ Len(C.yn) = 1
  /\ C.type = "text" => Len(C.xn) = 1 /\ Len(C.yn) = 1
Lin(b, n) == [i \in 0..n |-> (b[1] * M) + MulDiv((b[2] - b[1]) * M, i, n)]
XAxis == IF Regions THEN Axis(C.xb, C.xn, C.xd)
         ELSE IF C.type = "cartesian" THEN Lin(C.xb, C.xn[1])
         ELSE IF C.type = "spectral" THEN [i \in 0..C.xn[1] |-> MulDiv(360 * M, i, C.xn[1]) - ((360 * M) \div C.xn[1])]
         ELSE [i \in 0..C.xn[1] |-> C.xt[i + 1] * M]
YAxis == IF C.type = "vertical" THEN <<>>
         ELSE IF Regions THEN Axis(C.yb, C.yn, C.yd)
         ELSE IF C.type = "cartesian" THEN Lin(C.yb, C.yn[1])
         ELSE IF C.type = "spectral" THEN [i \in 0..C.yn[1] |-> IF i = 0 THEN -90 * M ELSE IF i = C.yn[1] THEN 90 * M ELSE 0]    \* inner ones: Gaussian latitudes, judged by their residuals
         ELSE [i \in 0..C.yn[1] |-> C.yt[i + 1] * M]
Init == /\ cfg \in Cfgs /\ pc = "start" /\ xs = <<>> /\ ys = <<>>
Refuse == pc = "start" /\ ~Accepted /\ pc' = "refused" /\ UNCHANGED <<cfg, xs, ys>>
MakeX == pc = "start" /\ Accepted /\ xs' = XAxis /\ pc' = "x" /\ UNCHANGED <<cfg, ys>>
MakeY == pc = "x" /\ ys' = YAxis /\ pc' = "made" /\ UNCHANGED <<cfg, xs>>
Next == Refuse \/ MakeX \/ MakeY
Made == pc = "made"
Done == pc \in {"made", "refused"}
\* a tripolar grid is regular up to the row nearest to lat_join (either, when two are as near)
Abs(a) == IF a < 0 THEN -a ELSE a
Joins == LET L == C.join * M  top == Cardinality(DOMAIN ys) - 1
             near == CHOOSE r \in 0..(180 * M) : \E j \in 0..top : Abs(ys[j] - L) = r /\ \A q \in 0..top : Abs(ys[q] - L) >= r IN
         {j \in 0..top : Abs(ys[j] - L) <= near + 30}
\* ------------------------------------------------------------- properties
AxisOk(b, n, d, a) ==
  /\ \A i \in DOMAIN a : i > 0 => a[i] > a[i - 1]                                          \* runs one way
  /\ LET c == IF Len(n) > 0 THEN n ELSE [k \in 1..(Len(b) - 1) |-> 2 * Cells(b, d)[k]] IN
     /\ Cardinality(DOMAIN a) = SumN(c, Len(c)) + 1
     /\ Abs(a[0] - (b[1] * M)) <= 1 /\ Abs(a[SumN(c, Len(c))] - (b[Len(b)] * M)) <= 40     \* begins and ends where asked
     /\ (Len(n) = 0 \/ C.center # "c_cell") => \A k \in 1..Len(c) : Abs(a[SumN(c, k)] - (b[k + 1] * M)) <= 40       \* a point on every bound
     /\ C.center = "t_cell" => \A i \in DOMAIN a : i % 2 = 1 => Abs((2 * a[i]) - a[i - 1] - a[i + 1]) <= 4          \* centers in the middle
     /\ C.center = "c_cell" => \A i \in DOMAIN a : (i % 2 = 0 /\ i > 0 /\ i < SumN(c, Len(c))) => Abs((2 * a[i]) - a[i - 1] - a[i + 1]) <= 4
     /\ (Len(c) = 1 /\ Len(n) = 1) => \A i \in DOMAIN a : Abs(a[i] - (b[1] * M) - MulDiv((b[2] - b[1]) * M, i, n[1])) <= 2   \* one region: even spacing
AxesOk == Made /\ Regions /\ C.stretch = 1 => AxisOk(C.xb, C.xn, C.xd, xs) /\ (C.type # "vertical" => AxisOk(C.yb, C.yn, C.yd, ys))
StretchOk == Made /\ C.stretch > 1 /\ Len(C.xd) > 0 => LET b == C.xb  N == Cardinality(DOMAIN xs) - 1 IN
  (\A i \in DOMAIN xs : i > 0 => xs[i] > xs[i - 1]) /\ Abs(xs[N] - (b[Len(b)] * M)) <= ((C.stretch * C.xd[Len(b)]) + C.xd[Len(b) - 1]) * M

=============================================================================
