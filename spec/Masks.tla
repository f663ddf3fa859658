------------------------------- MODULE Masks -------------------------------
(* check_mask: which domains of a decomposition can be left out because neither
   their cells nor their halos hold a point of the component (ocean on one
   logically rectangular tile with closed, cyclic or folded edges; land on the
   six tiles of a cubed sphere). *)
EXTENDS Fms
CONSTANTS Cfgs
VARIABLES cfg, np, tables
vars == <<cfg, np, tables>>
C == cfg
Land == C.kind = "land"
Tiles == IF Land THEN 1..6 ELSE {1}
\* points are <<tile, i, j>>, 1-based; C.on[tile] = row after row, TRUE where the component is
On(p) == C.on[p[1]][((p[3] - 1) * C.nx) + p[2]]
\* ---- ocean: where a place beyond the edges really is (<<>>: nowhere) ----
Wrap(i0, j0) ==
  LET w(i) == IF C.cx THEN ((i - 1) % C.nx) + 1 ELSE i
      j == IF C.cy THEN ((j0 - 1) % C.ny) + 1 ELSE j0
      q == IF C.trip /\ j > C.ny THEN <<(C.nx + 1) - i0, (2 * C.ny) + 1 - j>> ELSE <<i0, j>>
      p == <<w(q[1]), q[2]>>
  IN IF p[1] \in 1..C.nx /\ p[2] \in 1..C.ny THEN <<1, p[1], p[2]>> ELSE <<>>
\* ---- land: the cube, cell centres at odd coordinates of a cube of edge 2n ----
Place(p) == LET n == 2 * C.nx  a == (2 * p[2]) - 1  b == (2 * p[3]) - 1 IN
  CASE p[1] = 1 -> <<n, a, b>> [] p[1] = 2 -> <<n - a, n, b>> [] p[1] = 3 -> <<n - a, n - b, n>>
    [] p[1] = 4 -> <<0, n - b, n - a>> [] p[1] = 5 -> <<b, 0, n - a>> [] p[1] = 6 -> <<b, a, 0>>
Abs(x) == IF x < 0 THEN -x ELSE x
\* neighbours across an edge of the cube
Across(p, q) == p[1] # q[1] /\ LET a == Place(p)  b == Place(q)  d == <<Abs(a[1] - b[1]), Abs(a[2] - b[2]), Abs(a[3] - b[3])>> IN d \in {<<1, 1, 0>>, <<1, 0, 1>>, <<0, 1, 1>>}
Edge == TLCEval({<<t, i, j>> \in (1..6) \X (1..C.nx) \X (1..C.ny) : i \in {1, C.nx} \/ j \in {1, C.ny}})
\* ---- domains ----
Dom(lay, a, b) == LET ex == Extents(C.nx, lay[1])  ey == Extents(C.ny, lay[2]) IN
  [is |-> ex.lo[a] + 1, ie |-> ex.hi[a] + 1, js |-> ey.lo[b] + 1, je |-> ey.hi[b] + 1]
Cells(t, d) == {<<t, i, j>> : <<i, j>> \in (d.is..d.ie) \X (d.js..d.je)}
\* a place one beyond an edge of a tile lies next to one cell across that edge; beyond a corner there is none
Beyond(p) == LET a == Place(p)  m == 2 * C.nx
                 f(k) == IF a[k] < 0 THEN 0 ELSE IF a[k] > m THEN m ELSE IF a[k] = 0 THEN 1 ELSE IF a[k] = m THEN m - 1 ELSE a[k]
             IN {q \in Edge : Place(q) = <<f(1), f(2), f(3)>>}
Real(p) == LET x == p[2] \in 1..C.nx  y == p[3] \in 1..C.ny IN IF x /\ y THEN {p} ELSE IF x \/ y THEN Beyond(p) ELSE {}
Seen(t, d) ==
  LET h == C.halo  box == ((d.is - h)..(d.ie + h)) \X ((d.js - h)..(d.je + h)) IN
  IF ~Land THEN {Wrap(x[1], x[2]) : x \in box} \ {<<>>} ELSE UNION {Real(<<t, x[1], x[2]>>) : x \in box}
Empty(t, d) == ~\E p \in Seen(t, d) : On(p)
Table(lay) == {<<a, b, t>> : <<a, b, t>> \in {x \in (1..lay[1]) \X (1..lay[2]) \X Tiles : Empty(x[3], Dom(lay, x[1], x[2]))}}
LayoutOf(n) == IF C.lay # <<0, 0>> THEN C.lay ELSE Divisions(C.nx, C.ny, n)
Fits(lay) == lay[1] <= C.nx /\ lay[2] <= C.ny
First == IF C.lay # <<0, 0>> THEN C.lay[1] * C.lay[2] ELSE C.minp
Last == IF C.lay # <<0, 0>> THEN C.lay[1] * C.lay[2] ELSE C.maxp
----------------------------------------------------------------------------
Init == cfg \in Cfgs /\ np = First /\ tables = {}
\* the next number of processes is tried; nothing is written when no domain can be left out
Try == /\ np <= Last
       /\ LET lay == LayoutOf(np)  m == IF Fits(lay) THEN Table(lay) ELSE {} IN
          tables' = IF m = {} THEN tables ELSE tables \cup {[lay |-> lay, mask |-> m]}
       /\ np' = np + 1 /\ UNCHANGED cfg
Done == np > Last
Next == Try
----------------------------------------------------------------------------
\* seen from the points: within C.halo steps of a point of the component no domain is left out
Step(p) == IF Land THEN {<<p[1], i, j>> : <<i, j>> \in {x \in ((p[2] - 1)..(p[2] + 1)) \X ((p[3] - 1)..(p[3] + 1)) : x[1] \in 1..C.nx /\ x[2] \in 1..C.ny}} \cup {q \in Edge : p \in Edge /\ Across(p, q)}
           ELSE {Wrap(i, j) : <<i, j>> \in ((p[2] - 1)..(p[2] + 1)) \X ((p[3] - 1)..(p[3] + 1))} \ {<<>>}
RECURSIVE Reach(_, _)
Reach(S, k) == IF k = 0 THEN S ELSE Reach(UNION {Step(p) : p \in S}, k - 1)
Owner(lay, p) == CHOOSE x \in (1..lay[1]) \X (1..lay[2]) \X {p[1]} : p \in Cells(p[1], Dom(lay, x[1], x[2]))
Points == {p \in Tiles \X (1..C.nx) \X (1..C.ny) : On(p)}
Safe == \A t \in tables : \A p \in Reach(Points, C.halo) : Owner(t.lay, p) \notin t.mask
\* and no domain is kept in vain (closed or cyclic edges: steps and boxes reach the same places)
Tight == ~Land /\ ~C.trip /\ Done => \A t \in tables : \A x \in ((1..t.lay[1]) \X (1..t.lay[2]) \X Tiles) \ t.mask : \E p \in Reach(Points, C.halo) : Owner(t.lay, p) = x
\* every layout of the range that leaves something out is listed
Listed == Done /\ Points = {} => Cardinality(tables) = Cardinality({LayoutOf(n) : n \in {n \in First..Last : Fits(LayoutOf(n))}})
=============================================================================
