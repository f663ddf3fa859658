------------------------------ MODULE Cubic ------------------------------
(* fregrid from a cubed sphere of n by n cells per tile.  The exchange grid is a list of pieces [c, o, a, x, y]: *)
(* input cell c, output cell o, area a and the distance (x, y) of the piece's middle from the middle of c.        *)
(* Pieces are added up one after the other, in any order (tile by tile, process by process).                      *)
EXTENDS Cube, FiniteSetsExt, SequencesExt
CONSTANTS Cfgs
VARIABLES cfg, pc, left, sum, area
vars == <<cfg, pc, left, sum, area>>
C == cfg
NC(n) == 6 * n * n
Tile(n, c) == ((c - 1) \div (n * n)) + 1
Col(n, c) == ((c - 1) % n) + 1
Row(n, c) == (((c - 1) % (n * n)) \div n) + 1
Cell(n, t, i, j) == ((t - 1) * n * n) + ((j - 1) * n) + i
\* the cells around a cell, across the edges of the tiles; at the corners of the cube there are only seven
Beside(n, c, p, q) ==
  LET i == Col(n, c) + p  j == Row(n, c) + q  t == Tile(n, c)
      corner == (i \in {0, n + 1}) /\ (j \in {0, n + 1})
      v == Fold(2 * n, t, At(2 * n, t, (2 * i) - 1, (2 * j) - 1))
      u == CHOOSE u \in Faces(2 * n, v) : TRUE
      w == On1(2 * n, u, v)
  IN IF corner THEN c ELSE Cell(n, u, (w[1] + 1) \div 2, (w[2] + 1) \div 2)
Around(n, c) == {Beside(n, c, pq[1], pq[2]) : pq \in (-1..1) \X (-1..1)}
\* ------------------------------------------------------------- the remapping
Pieces == 1..Len(C.pieces)
P(k) == C.pieces[k]
Value(k) == C.data[P(k).c] + (IF C.order = 2 THEN C.slope[P(k).c] * P(k).x ELSE 0)
Init == cfg \in Cfgs /\ pc = "add" /\ left = 1..Len(cfg.pieces) /\ sum = [o \in 1..cfg.no |-> 0] /\ area = [o \in 1..cfg.no |-> 0]
Add == /\ pc = "add" /\ left # {}
       /\ \E k \in (IF C.any THEN left ELSE {Min(left)}) :
          /\ left' = left \ {k}
          /\ IF C.valid[P(k).c] THEN sum' = [sum EXCEPT ![P(k).o] = @ + (P(k).a * Value(k))] /\ area' = [area EXCEPT ![P(k).o] = @ + P(k).a]
             ELSE UNCHANGED <<sum, area>>
       /\ UNCHANGED <<cfg, pc>>
Finish == pc = "add" /\ left = {} /\ pc' = "done" /\ UNCHANGED <<cfg, left, sum, area>>
Next == Add \/ Finish
\* ------------------------------------------------------------- properties
Sum(S, f(_)) == MapThenSumSet(f, S)
Full(c) == Sum({k \in Pieces : P(k).c = c}, LAMBDA k : P(k).a)
MomentFree == \A c \in {P(k).c : k \in Pieces} : Sum({k \in Pieces : P(k).c = c}, LAMBDA k : P(k).a * P(k).x) = 0
\* what goes in comes out, whatever the slopes, as long as the pieces balance around the middle of their cell
Conserved == (pc = "done" /\ MomentFree) => Sum(1..C.no, LAMBDA o : sum[o]) = Sum({c \in {P(k).c : k \in Pieces} : C.valid[c]}, LAMBDA c : C.data[c] * Full(c))
\* first order: between the smallest and the largest source
Bounded == (pc = "done" /\ C.order = 1) => \A o \in 1..C.no : area[o] > 0 =>
    LET s == {C.data[P(k).c] : k \in {k \in Pieces : P(k).o = o /\ C.valid[P(k).c]}} IN sum[o] >= Min(s) * area[o] /\ sum[o] <= Max(s) * area[o]
\* the order does not matter
Settled == pc = "done" => sum = [o \in 1..C.no |-> Sum({k \in Pieces : P(k).o = o /\ C.valid[P(k).c]}, LAMBDA k : P(k).a * Value(k))]
\* neighbours are mutual, and there are eight of them but at the corners
Mutual == pc = "done" => \A c \in 1..NC(C.n) : \A d \in Around(C.n, c) : c \in Around(C.n, d)
Eight == pc = "done" => \A c \in 1..NC(C.n) : LET z == Cardinality(Around(C.n, c)) IN
             IF C.n = 1 THEN z = 5 ELSE IF Col(C.n, c) \in {1, C.n} /\ Row(C.n, c) \in {1, C.n} THEN z = 8 ELSE z = 9
===========================================================================
