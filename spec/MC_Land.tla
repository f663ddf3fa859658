------------------------------ MODULE MC_Land ------------------------------
(* Every distribution of the entries of a small grid over up to MaxF files,   *)
(* entries in ascending or descending order, with and without empty entries. *)
EXTENDS Land, Json
CONSTANTS MaxF, Grids, Emit
Dim(n, s, u) == [n |-> n, s |-> s, u |-> u, comp |-> <<>>, idx |-> <<>>]
RECURSIVE SeqOf(_, _, _)
\* the elements of S (a set of naturals) up to n, ascending or descending
SeqOf(S, n, up) == IF n < 0 THEN <<>>
   ELSE LET r == SeqOf(S, n - 1, up) IN IF n \notin S THEN r ELSE IF up THEN r \o <<n>> ELSE <<n>> \o r
Idx(S, n, up, pad) == LET s == SeqOf(S, n, up) IN
   IF s = <<>> THEN <<-1>> ELSE IF pad THEN <<-1>> \o s \o <<-5>> ELSE s
Var(n, t, d, x) == [n |-> n, t |-> t, d |-> d, a |-> <<>>, x |-> x, fill |-> 9, gap |-> 8, hasmiss |-> TRUE, missatt |-> 0]
File(nlon, nlat, ntile, idx, b) ==
  LET n == Len(idx) IN
  [gatts |-> <<>>,
   dims |-> << Dim("lon", nlon, FALSE), Dim("lat", nlat, FALSE), Dim("tile", ntile, FALSE), Dim("zfull", 2, FALSE),
               [n |-> "tile_index", s |-> n, u |-> FALSE, comp |-> <<"tile", "lat", "lon">>, idx |-> idx] >>,
   vars |-> << Var("tile_index", "int", <<5>>, [k \in 1..n |-> 1000 + idx[k]]),
               Var("a", "float", <<4, 5>>, [k \in 1..(2 * n) |-> b + k]), Var("u", "float", <<4>>, <<b + 91, b + 92>>) >>]
Cells(g) == 0..(g[1] * g[2] * g[3] - 1)
Cfg(op, fs, nx, ny) == [op |-> op, files |-> fs, nx |-> nx, ny |-> ny, addmiss |-> FALSE, bad |-> FALSE]
Ops(op) == UNION { UNION { { Cfg(op, [f \in 1..nf |-> File(g[1], g[2], g[3], Idx({c \in Cells(g) : asg[c] = f}, g[1] * g[2] * g[3] - 1, up, pad), 100 * f)], 1, 1) :
                up \in BOOLEAN, pad \in BOOLEAN, asg \in [Cells(g) -> 0..nf] } : nf \in 1..MaxF } : g \in Grids }
Scat == UNION { { Cfg("scatter", << File(g[1], g[2], g[3], Idx({c \in Cells(g) : asg[c] = 1}, g[1] * g[2] * g[3] - 1, up, pad), 100) >>, nx, ny) :
                up \in BOOLEAN, pad \in BOOLEAN, asg \in [Cells(g) -> 0..1], nx \in 1..3, ny \in 1..2 } : g \in Grids }
MCCfgs == Ops("combine") \cup Ops("decompress") \cup Scat
Slim(c) == [op |-> c.op, nlon |-> c.files[1].dims[1].s, nlat |-> c.files[1].dims[2].s, ntile |-> c.files[1].dims[3].s, nx |-> c.nx, ny |-> c.ny,
            idx |-> [f \in 1..Len(c.files) |-> c.files[f].dims[5].idx]]
ASSUME Emit => \A c \in MCCfgs : PrintT("CASE|" \o ToJson(Slim(c)))
GenNext == FALSE /\ UNCHANGED vars
G1 == {<<2, 1, 1>>, <<2, 2, 1>>, <<3, 1, 1>>}
G2 == {<<2, 2, 1>>, <<2, 1, 2>>, <<4, 1, 1>>, <<1, 2, 2>>, <<5, 1, 1>>, <<1, 3, 1>>}
=============================================================================
