----------------------------- MODULE Regional -----------------------------
(* make_regional_mosaic: the cells named by the axes of a regional output file are cut out of one tile of a    *)
(* global grid.  The tile has W by H cells, 2W + 1 by 2H + 1 grid points; xs and ys are the cell numbers.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Cfgs
VARIABLES cfg, pc, rows
vars == <<cfg, pc, rows>>
C == cfg
Run(s) == s[Len(s)] - s[1] + 1 = Len(s)
Within(s, m) == s[1] >= 1 /\ s[Len(s)] <= m
Good == C.tile >= 1 /\ C.tile <= C.ntiles /\ Run(C.xs) /\ Run(C.ys) /\ Within(C.xs, C.W) /\ Within(C.ys, C.H)
\* grid point (p, q) of the region, counted from 1, is this point of the tile
PointX(p) == (2 * C.xs[1]) - 2 + p
PointY(q) == (2 * C.ys[1]) - 2 + q
NP == (2 * Len(C.xs)) + 1
NQ == (2 * Len(C.ys)) + 1
Init == cfg \in Cfgs /\ pc = "look" /\ rows = <<>>
Look == pc = "look" /\ pc' = (IF Good THEN "cut" ELSE "refused") /\ UNCHANGED <<cfg, rows>>
Cut == pc = "cut" /\ Len(rows) < NQ /\ rows' = Append(rows, [p \in 1..NP |-> <<PointX(p), PointY(Len(rows) + 1)>>]) /\ UNCHANGED <<cfg, pc>>
Write == pc = "cut" /\ Len(rows) = NQ /\ pc' = "done" /\ UNCHANGED <<cfg, rows>>
Next == Look \/ Cut \/ Write
\* ------------------------------------------------------------- properties
\* corners, sides and middle of cell (i, j) of the tile, counted from 1
CellOf(i, j) == {<<a, b>> : a \in ((2 * i) - 1)..((2 * i) + 1), b \in ((2 * j) - 1)..((2 * j) + 1)}
Exact == pc = "done" => \A a \in 1..Len(C.xs) : \A b \in 1..Len(C.ys) :
            {rows[q][p] : p \in ((2 * a) - 1)..((2 * a) + 1), q \in ((2 * b) - 1)..((2 * b) + 1)} = CellOf(C.xs[a], C.ys[b])
OnTile == pc = "done" => \A q \in 1..NQ : \A p \in 1..NP : rows[q][p][1] \in 1..((2 * C.W) + 1) /\ rows[q][p][2] \in 1..((2 * C.H) + 1)
Once == pc = "done" => Cardinality(UNION {{rows[q][p] : p \in 1..NP} : q \in 1..NQ}) = NP * NQ
===========================================================================
