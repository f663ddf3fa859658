------------------------------- MODULE Hgrid -------------------------------
(* make_hgrid --grid_type gnomonic_ed: the six tiles of a cubed sphere (with a
   ring of neighbouring points around them if asked for) and nests aligned with
   the model cells of a tile or of another nest.  A tile has C.n x C.n supergrid
   cells; points have coordinates 0..n, cells and edges are named by the sum of
   the coordinates of their ends (so points have even coordinates there). *)
EXTENDS Cube
CONSTANTS Cfgs
VARIABLES cfg, written
vars == <<cfg, written>>
C == cfg
M == 2 * C.n                                     \* edge of the cube in half cells
Nests == C.nests                                 \* [parent, r, is, ie, js, je]: supergrid cells is..ie of the parent
Tiles == 1..(6 + Len(Nests))
Size(t) == IF t <= 6 THEN <<C.n, C.n>> ELSE LET q == Nests[t - 6] IN <<(q.ie - q.is + 1) * q.r, (q.je - q.js + 1) * q.r>>
\* a nest starts at a model cell of its parent, ends at one, and keeps C.halo model cells away from the edges of the parent
Legal(k) == LET q == Nests[k]  p == Size(q.parent) IN
  /\ q.parent \in 1..(5 + k) /\ q.is % 2 = 1 /\ q.js % 2 = 1 /\ q.ie % 2 = 0 /\ q.je % 2 = 0
  /\ q.is - (2 * C.halo) >= 1 /\ q.js - (2 * C.halo) >= 1 /\ q.ie + (2 * C.halo) <= p[1] /\ q.je + (2 * C.halo) <= p[2]
  /\ (Len(Nests) = 0 \/ C.halo > 0)
Accepted == C.n % 2 = 0 /\ \A k \in 1..Len(Nests) : Legal(k)
\* what lies at half-cell coordinates <<a, b>> of tile t: on the tile, or in the ring around it, where corners are nothing
Spot(t, a, b) == LET x == a \in 0..M  y == b \in 0..M IN IF x /\ y THEN At(M, t, a, b) ELSE IF x \/ y THEN Fold(M, t, At(M, t, a, b)) ELSE <<>>
\* the point of the parent on which point <<i, j>> of a nest lies (<<>>: on none that is known)
Anchor(k, i, j) == LET q == Nests[k]  w == 2 * q.r IN IF i % w = 0 /\ j % w = 0 THEN <<q.is - 1 + (2 * (i \div w)), q.js - 1 + (2 * (j \div w))>> ELSE <<>>
\* the parent's model cell in which supergrid cell <<i, j>> (from 1) of a nest lies, by its first supergrid cell
Home(k, i, j) == LET q == Nests[k]  w == 2 * q.r IN <<q.is + (2 * ((i - 1) \div w)), q.js + (2 * ((j - 1) \div w))>>
----------------------------------------------------------------------------
Init == cfg \in Cfgs /\ written = {}
WriteTile == Accepted /\ written # Tiles /\ written' = written \cup {Cardinality(written) + 1} /\ UNCHANGED cfg
Next == WriteTile
Done == ~Accepted \/ written = Tiles
----------------------------------------------------------------------------
\* the tiles close to a sphere: Euler's formula, no cell twice
Closed == Cardinality({At(M, x[1], 2 * x[2], 2 * x[3]) : x \in (1..6) \X (0..C.n) \X (0..C.n)}) = (6 * C.n * C.n) + 2
\* points inside a tile belong to it alone, those on edges to two tiles, the eight corners to three
Shared == \A t \in 1..6 : \A i, j \in 0..C.n : LET f == Cardinality(Faces(M, At(M, t, 2 * i, 2 * j)))  e == (IF i \in {0, C.n} THEN 1 ELSE 0) + (IF j \in {0, C.n} THEN 1 ELSE 0) IN f = e + 1
\* the ring around a tile: every spot lies on a neighbouring tile, one cell inside, and the relation is symmetric for cells
Ring == \A t \in 1..6 : \A j \in 1..C.n : \A x \in {<<-1, (2 * j) - 1>>, <<M + 1, (2 * j) - 1>>, <<(2 * j) - 1, -1>>, <<(2 * j) - 1, M + 1>>} :
  LET v == Spot(t, x[1], x[2])  g == Faces(M, v) IN
  /\ Cardinality(g) = 1 /\ t \notin g
  /\ LET u == CHOOSE u \in g : TRUE  me == At(M, t, IF x[1] = -1 THEN 1 ELSE IF x[1] = M + 1 THEN M - 1 ELSE x[1], IF x[2] = -1 THEN 1 ELSE IF x[2] = M + 1 THEN M - 1 ELSE x[2])
         c == On1(M, u, v) IN \E d \in {<<-2, 0>>, <<2, 0>>, <<0, -2>>, <<0, 2>>} : ((c[1] + d[1]) \notin 0..M \/ (c[2] + d[2]) \notin 0..M) /\ Spot(u, c[1] + d[1], c[2] + d[2]) = me
\* a nest covers the model cells of its parent that it names, each with (2 r) x (2 r) cells
Cover == Accepted => \A k \in 1..Len(Nests) : LET q == Nests[k]  z == Size(6 + k) IN
  \A c \in {x \in (q.is..q.ie) \X (q.js..q.je) : x[1] % 2 = 1 /\ x[2] % 2 = 1} : Cardinality({x \in (1..z[1]) \X (1..z[2]) : Home(k, x[1], x[2]) = c}) = 4 * q.r * q.r
Inside == Accepted => \A k \in 1..Len(Nests) : LET p == Size(Nests[k].parent)  z == Size(6 + k) IN
  \A x \in (0..z[1]) \X (0..z[2]) : LET a == Anchor(k, x[1], x[2]) IN a = <<>> \/ (a[1] \in 0..p[1] /\ a[2] \in 0..p[2])
=============================================================================
