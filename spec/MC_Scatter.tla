---------------------------- MODULE MC_Scatter ----------------------------
(* Every size and number of divisions up to a bound, with and without an io   *)
(* layout; axes recognised in every way.                                      *)
EXTENDS Scatter, Json
CONSTANTS MaxN, MaxD, Emit
Dim(n, s, u, c, un, ax) == [n |-> n, s |-> s, u |-> u, coord |-> c, units |-> un, axis |-> ax]
Var(n, d, x) == [n |-> n, d |-> d, x |-> x]
Ramp(n, b) == [k \in 1..n |-> b + k]
File(nx, ny, nt, how) ==
  [dims |-> << Dim("t", nt, TRUE, TRUE, "degrees_east", ""),
               Dim("y", ny, FALSE, TRUE, IF how = "units" THEN "degrees_north" ELSE "", IF how = "axis" THEN "y" ELSE ""),
               Dim("x", nx, FALSE, TRUE, IF how = "units" THEN "degrees_e" ELSE "", IF how = "axis" THEN "x" ELSE ""),
               Dim("z", 2, FALSE, TRUE, "m", "z") >>,
   vars |-> << Var("x", <<3>>, Ramp(nx, 100)), Var("y", <<2>>, Ramp(ny, 200)), Var("z", <<4>>, Ramp(2, 300)),
               Var("a", <<1, 2, 3>>, Ramp(nt * ny * nx, 1000)), Var("b", <<3, 2>>, Ramp(ny * nx, 2000)) >>,
   xdims |-> IF how = "list" THEN <<"x", "t">> ELSE <<>>, ydims |-> IF how = "list" THEN <<"y">> ELSE <<>> ]
With(f, nx, ny, ix, iy, dry) == [dims |-> f.dims, vars |-> f.vars, xdims |-> f.xdims, ydims |-> f.ydims,
                                 nx |-> nx, ny |-> ny, nxio |-> ix, nyio |-> iy, dry |-> dry]
\* every length and number of divisions in x
CfgX == { With(File(n, 2, 1, "units"), d, 1, 0, 0, FALSE) : n \in 1..MaxN, d \in 1..MaxD }
\* both directions, io layouts
CfgXY == { With(File(nx, ny, 2, h), dx, dy, ix, iy, dr) :
           nx \in {4, 7}, ny \in {3, 6}, h \in {"units", "axis", "list"}, dx \in {2, 4}, dy \in {1, 3}, ix \in {0, 1, 2, 3}, iy \in {0, 1, 3}, dr \in BOOLEAN }
MCCfgs == CfgX \cup CfgXY
Slim(c) == [lens |-> [d \in 1..Len(c.dims) |-> c.dims[d].s], nx |-> c.nx, ny |-> c.ny, nxio |-> c.nxio, nyio |-> c.nyio, dry |-> c.dry,
            how |-> IF c.xdims # <<>> THEN "list" ELSE IF c.dims[3].units # "" THEN "units" ELSE "axis"]
ASSUME Emit => \A c \in MCCfgs : PrintT("CASE|" \o ToJson(Slim(c)))
GenNext == FALSE /\ UNCHANGED vars
\* the FMS cut is a partition for every size (checked as an assumption over the whole range)
ASSUME \A n \in 1..(4 * MaxN) : \A d \in 1..n : Partition(Extents(n, d), n, d)
ASSUME \A n \in 1..(2 * MaxN) : \A d \in 1..n : LET e == Extents(n, d) IN
          \A k \in 1..d : e.hi[k] - e.lo[k] + 1 \in {n \div d - 1, n \div d, n \div d + 1, n \div d + 2}
=============================================================================
