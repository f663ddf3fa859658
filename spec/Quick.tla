------------------------------ MODULE Quick ------------------------------
(* make_quick_mosaic: atmosphere, land and ocean on the same grid.  Every cell is divided into land and sea,  *)
(* by depth, by ocean fraction, by land fraction, or by the land of an earlier coupled mosaic; the exchange   *)
(* grids list the cells that have some of it.  Shares are in eighths of the cell.                             *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS Cfgs
VARIABLES cfg, pc, n, land, axl, axo, lxo
vars == <<cfg, pc, n, land, axl, axo, lxo>>
C == cfg
One == 8000
Tiles == 1..Len(C.nx)
NCell(t) == C.nx[t] * C.ny[t]
Coupled == C.kind = "coupled"
\* pieces [t, c, a] of land in a coupled mosaic, any number for a cell
Pieces(t, c) == {k \in 1..Len(C.pieces) : C.pieces[k][1] = t /\ C.pieces[k][2] = c}
LandOf(t, c) == CASE C.kind = "depth" -> IF C.v[t][c] > C.level THEN 0 ELSE One
                  [] C.kind = "area" -> IF C.v[t][c] = One THEN 0 ELSE One
                  [] C.kind = "land" -> C.v[t][c]
                  [] C.kind = "coupled" -> MapThenSumSet(LAMBDA k : C.pieces[k][3], Pieces(t, c))
Init == cfg \in Cfgs /\ pc = "divide" /\ n = 1 /\ land = <<>> /\ axl = <<>> /\ axo = <<>> /\ lxo = <<>>
Divide == /\ pc = "divide" /\ n <= Len(C.nx)
          /\ LET l == [c \in 1..NCell(n) |-> LandOf(n, c)] IN
             IF \E c \in 1..NCell(n) : l[c] > One THEN pc' = "refused" /\ UNCHANGED <<n, land>>
             ELSE land' = Append(land, l) /\ n' = n + 1 /\ UNCHANGED pc
          /\ UNCHANGED <<cfg, axl, axo, lxo>>
Start == pc = "divide" /\ n > Len(C.nx) /\ pc' = "write" /\ n' = 1 /\ UNCHANGED <<cfg, land, axl, axo, lxo>>
Some(t, a(_)) == {[c |-> c, a |-> a(c)] : c \in {c \in 1..NCell(t) : a(c) > 0}}
Write == /\ pc = "write" /\ n <= Len(C.nx) /\ n' = n + 1
         /\ axl' = Append(axl, Some(n, LAMBDA c : land[n][c]))
         /\ axo' = Append(axo, Some(n, LAMBDA c : One - land[n][c]))
         /\ lxo' = Append(lxo, Some(n, LAMBDA c : One - land[n][c]))
         /\ UNCHANGED <<cfg, pc, land>>
Close == pc = "write" /\ n > Len(C.nx) /\ pc' = "done" /\ UNCHANGED <<cfg, n, land, axl, axo, lxo>>
Next == Divide \/ Start \/ Write \/ Close
\* ------------------------------------------------------------- properties
Done == pc = "done"
Share(S, c) == MapThenSumSet(LAMBDA e : e.a, {e \in S : e.c = c})
Complete == Done => \A t \in Tiles : \A c \in 1..NCell(t) : Share(axl[t], c) + Share(axo[t], c) = One
Alike == Done => axo = lxo                                                        \* the sea is the same for land and atmosphere
NoneEmpty == Done => \A t \in Tiles : \A e \in axl[t] \cup axo[t] : e.a > 0 /\ e.a <= One
Masked == (Done /\ C.kind \in {"depth", "area"}) => \A t \in Tiles : {e.c : e \in axl[t]} \cap {e.c : e \in axo[t]} = {}
\* the result, read as a coupled mosaic, gives itself
Again == Done => \A t \in Tiles : \A c \in 1..NCell(t) : LandOf(t, c) = Share(axl[t], c)
===========================================================================
