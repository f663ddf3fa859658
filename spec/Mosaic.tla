------------------------------- MODULE Mosaic -------------------------------
(* make_solo_mosaic: find how the tiles of a mosaic touch.  A tile is a matrix of
   grid points (row after row, south to north); points are pairs of integers, two
   points coincide when they are equal, or equal up to the period in the direction
   the sides face.  The tool visits the pairs of tiles, first for sides that touch
   (and a folded north side), then for tiles nested in each other.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Cfgs
VARIABLES cfg, pc, n, m, out
vars == <<cfg, pc, n, m, out>>
C == cfg
Abs(a) == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
NT == Len(C.tiles)
T(k) == C.tiles[k]
Pt(t, i, j) == t.p[((j - 1) * t.nx) + i]
Sides == {"W", "E", "S", "N"}
Size(t, s) == IF s \in {"W", "E"} THEN t.ny ELSE t.nx
On(t, s, k) == CASE s = "W" -> Pt(t, 1, k) [] s = "E" -> Pt(t, t.nx, k) [] s = "S" -> Pt(t, k, 1) [] s = "N" -> Pt(t, k, t.ny)
Same(a, b, px, py) == LET dx == Abs(a[1] - b[1])  dy == Abs(a[2] - b[2]) IN (dx = 0 \/ dx = px) /\ (dy = 0 \/ dy = py)
\* sides that are looked at together: opposite ones (here the period counts), and the ones a rotated neighbour shows
Pairs == {<<"E", "W">>, <<"W", "E">>, <<"S", "N">>, <<"N", "S">>, <<"E", "S">>, <<"S", "E">>, <<"W", "N">>, <<"N", "W">>}
PairsOf(a, b) == IF a = b THEN {<<"E", "W">>, <<"S", "N">>} ELSE Pairs
PX(pr) == IF pr \in {<<"E", "W">>, <<"W", "E">>} THEN C.px ELSE 0
PY(pr) == IF pr \in {<<"S", "N">>, <<"N", "S">>} THEN C.py ELSE 0
Hits(a, b, pr) == TLCEval({<<k, l>> \in (1..Size(T(a), pr[1])) \X (1..Size(T(b), pr[2])) : Same(On(T(a), pr[1], k), On(T(b), pr[2], l), PX(pr), PY(pr))})
Lo(S) == CHOOSE h \in S : \A g \in S : h[1] < g[1] \/ (h[1] = g[1] /\ h[2] <= g[2])
Hi(S) == CHOOSE h \in S : \A g \in S : h[1] > g[1] \/ (h[1] = g[1] /\ h[2] >= g[2])
\* points a..b along a side are the cells between them
Range(a, b) == IF a > b THEN <<a - 1, b>> ELSE <<a, b - 1>>
\* a run of cells along a side as index ranges of cells in i and j
Box(t, s, r) == CASE s = "W" -> <<1, 1, r[1], r[2]>> [] s = "E" -> <<t.nx - 1, t.nx - 1, r[1], r[2]>>
                  [] s = "S" -> <<r[1], r[2], 1, 1>> [] s = "N" -> <<r[1], r[2], t.ny - 1, t.ny - 1>>
Touch(a, b, pr) == LET H == Hits(a, b, pr) IN
  IF H = {} THEN {} ELSE LET f == Lo(H)  l == Hi(H) IN
  IF f[1] = l[1] \/ f[2] = l[2] THEN {}
  ELSE {[t1 |-> a, t2 |-> b, b1 |-> Box(T(a), pr[1], Range(f[1], l[1])), b2 |-> Box(T(b), pr[2], Range(f[2], l[2])), k |-> pr]}
\* the north side folded onto itself: point k and its mirror image are the same place on the sphere
Deg == C.deg
Folded(t) == LET P == 1..(t.nx \div 2)  D(k) == Abs(Pt(t, k, t.ny)[1] - Pt(t, (t.nx - k) + 1, t.ny)[1]) IN
             /\ \A k \in P : Pt(t, k, t.ny)[2] = Pt(t, (t.nx - k) + 1, t.ny)[2] /\ D(k) \in {0, 180 * Deg, 360 * Deg}
             /\ Cardinality({k \in P : D(k) = 180 * Deg}) <= 1
Fold(a) == IF ~Folded(T(a)) THEN {} ELSE
  {[t1 |-> a, t2 |-> a, b1 |-> <<1, T(a).nx \div 2, T(a).ny - 1, T(a).ny - 1>>, b2 |-> <<T(a).nx - 1, (T(a).nx \div 2) + 1, T(a).ny - 1, T(a).ny - 1>>, k |-> <<"N", "N">>]}
\* tile b lies on points of tile a, corner by corner and without rotation
Where(t, q) == LET S == {<<i, j>> \in (1..t.nx) \X (1..t.ny) : Pt(t, i, j) = q} IN
               IF S = {} THEN <<0, 0>> ELSE CHOOSE s \in S : \A u \in S : s[2] < u[2] \/ (s[2] = u[2] /\ s[1] <= u[1])
Corners(t) == <<Pt(t, 1, 1), Pt(t, t.nx, 1), Pt(t, 1, t.ny), Pt(t, t.nx, t.ny)>>
Inside(a, b) == LET c == Corners(T(b))  w == TLCEval([q \in 1..4 |-> Where(T(a), c[q])]) IN
  IF \E q \in 1..4 : w[q] = <<0, 0>> THEN <<>>
  ELSE IF w[1][2] = w[2][2] /\ w[3][2] = w[4][2] /\ w[1][1] = w[3][1] /\ w[2][1] = w[4][1] /\ w[1][2] # w[3][2] /\ w[1][1] # w[2][1]
       THEN <<w[1][1], w[2][1] - 1, w[1][2], w[3][2] - 1>> ELSE <<0>>
Whole(t) == <<1, t.nx - 1, 1, t.ny - 1>>
Nest(a, b) == LET x == Inside(a, b)  y == Inside(b, a) IN
  IF Len(x) = 4 THEN {[t1 |-> a, t2 |-> b, b1 |-> x, b2 |-> Whole(T(b)), k |-> <<"nest">>]}
  ELSE IF x = <<>> /\ Len(y) = 4 THEN {[t1 |-> a, t2 |-> b, b1 |-> Whole(T(a)), b2 |-> y, k |-> <<"nest">>]} ELSE {}
----------------------------------------------------------------------------
Init == cfg \in Cfgs /\ pc = "align" /\ n = 1 /\ m = 1 /\ out = {}
Step == /\ pc \in {"align", "nest"} /\ n <= NT
        /\ out' = out \cup (IF pc = "align" THEN UNION {Touch(n, m, pr) : pr \in PairsOf(n, m)} \cup (IF n = m THEN Fold(n) ELSE {})
                            ELSE IF n = m THEN {} ELSE Nest(n, m))
        /\ IF m < NT THEN n' = n /\ m' = m + 1 ELSE n' = n + 1 /\ m' = n + 1
        /\ UNCHANGED <<cfg, pc>>
Turn == pc = "align" /\ n > NT /\ pc' = "nest" /\ n' = 1 /\ m' = 1 /\ UNCHANGED <<cfg, out>>
Finish == pc = "nest" /\ n > NT /\ pc' = "done" /\ UNCHANGED <<cfg, n, m, out>>
Next == Step \/ Turn \/ Finish
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Done == pc = "done"
Up(r) == IF r[1] <= r[2] THEN 1 ELSE -1
Along(bx, s) == IF s \in {"W", "E"} THEN <<bx[3], bx[4]>> ELSE <<bx[1], bx[2]>>
Cells(r) == {Min2(r[1], r[2]) + q : q \in 0..Abs(r[1] - r[2])}
\* the points at the two ends of a contact are the same places
Ends == Done => \A c \in {x \in out : x.k \in Pairs} :
          LET r == Along(c.b1, c.k[1])  s == Along(c.b2, c.k[2])
 IN
          \E o1, o2 \in {0, 1} : \E e1, e2 \in {0, 1} :
             /\ Same(On(T(c.t1), c.k[1], r[1] + o1), On(T(c.t2), c.k[2], s[1] + o2), PX(c.k), PY(c.k))
             /\ Same(On(T(c.t1), c.k[1], r[2] + e1), On(T(c.t2), c.k[2], s[2] + e2), PX(c.k), PY(c.k))
\* a side is never in two contacts at the same cell (no cell has two neighbours through one side)
Single == Done /\ C.plain => \A c, d \in {x \in out : x.k \in Pairs} :
            LET sideOf(x, which) == IF which = 1 THEN <<x.t1, x.k[1]>> ELSE <<x.t2, x.k[2]>>
                runOf(x, which) == IF which = 1 THEN Cells(Along(x.b1, x.k[1])) ELSE Cells(Along(x.b2, x.k[2])) IN
            \A w, v \in {1, 2} : (sideOf(c, w) = sideOf(d, v) /\ runOf(c, w) \cap runOf(d, v) # {}) => (c = d /\ w = v)
\* every stretch of two sides facing each other that lies on common points is reported
Found == Done => \A a, b \in 1..NT : a <= b => \A pr \in PairsOf(a, b) :
           \A k \in 1..(Size(T(a), pr[1]) - 1) : \A l \in 1..Size(T(b), pr[2]) : \A l2 \in {l - 1, l + 1} \cap (1..Size(T(b), pr[2])) :
             (Same(On(T(a), pr[1], k), On(T(b), pr[2], l), PX(pr), PY(pr)) /\ Same(On(T(a), pr[1], k + 1), On(T(b), pr[2], l2), PX(pr), PY(pr)))
               => \E c \in out : c.k = pr /\ c.t1 = a /\ c.t2 = b /\ k \in Cells(Along(c.b1, pr[1])) /\ Min2(l, l2) \in Cells(Along(c.b2, pr[2]))
=============================================================================
