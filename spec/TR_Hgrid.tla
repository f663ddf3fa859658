----------------------------- MODULE TR_Hgrid -----------------------------
(* A recorded run of make_hgrid --grid_type gnomonic_ed against the specification. *)
EXTENDS Hgrid, Json, IOUtils
TRCfgs == LET cs == ndJsonDeserialize(IOEnv.CASES) IN {cs[k] : k \in 1..Len(cs)}
O == C.obs
If(b, w) == IF b THEN {} ELSE {w}
Names == {".tile" \o ToString(t) \o ".nc" : t \in Tiles}
H == IF C.ring THEN 1 ELSE 0
Close(a, b, e) == a - b <= e /\ b - a <= e
\* entries of an array of w columns, as <<column, row>> from 0
Col(k, w) == (k - 1) % w
Row(k, w) == (k - 1) \div w
\* ---- the six tiles: value of a field at a spot, from a tile that owns it ----
OwnCell(v) == LET t == CHOOSE t \in 1..6 : OnTile(M, t, v)  c == On1(M, t, v)  w == C.n + (2 * H) IN O.tiles[t].area[(((c[2] - 1) \div 2) + H) * w + ((c[1] - 1) \div 2) + H + 1]
OwnEdge(v) == LET ts == {t \in 1..6 : OnTile(M, t, v)}
                  t == CHOOSE t \in ts : TRUE
                  c == On1(M, t, v) IN
              IF c[1] % 2 = 1 THEN O.tiles[t].dx[((c[2] \div 2) + H) * (C.n + (2 * H)) + (c[1] \div 2) + H + 1]
              ELSE O.tiles[t].dy[((c[2] \div 2) + H) * (C.n + 1 + (2 * H)) + (c[1] \div 2) + H + 1]
None == -7
\* values on the tile agree with the geometry, values in the ring with the owner; every tile that shares an edge has the same length
BadTile(t) == LET T == O.tiles[t]  w == C.n + 1 + (2 * H)  wc == C.n + (2 * H) IN
  IF ~T.ok THEN {<<"unreadable", t>>} ELSE
  If(T.dims = <<wc, wc, w, w>>, <<"size", t, T.dims>>) \cup If(T.name = "tile" \o ToString(t) /\ T.nest = "" /\ T.range, <<"name", t, T.name>>) \cup If(T.la = C.la, <<"lengths", t>>) \cup
  (IF T.dims # <<wc, wc, w, w>> THEN {} ELSE
   LET p == {k \in 1..(w * w) : T.at[k] # Spot(t, 2 * (Col(k, w) - H), 2 * (Row(k, w) - H))}
       ownc(k) == LET x == Col(k, wc) - H  y == Row(k, wc) - H IN IF x \in 0..(C.n - 1) /\ y \in 0..(C.n - 1) THEN T.cell[(y * C.n) + x + 1]
                  ELSE LET s == Spot(t, (2 * x) + 1, (2 * y) + 1) IN IF s = <<>> THEN None ELSE OwnCell(s)
       a == {k \in 1..(wc * wc) : ~Close(T.area[k], ownc(k), 3)}
       ex(k) == LET x == Col(k, wc) - H  y == Row(k, wc) - H IN IF x \in 0..(C.n - 1) /\ y \in 0..C.n THEN T.arcx[(y * C.n) + x + 1]
                ELSE LET s == Spot(t, (2 * x) + 1, 2 * y) IN IF s = <<>> THEN None ELSE OwnEdge(s)
       ey(k) == LET x == Col(k, w) - H  y == Row(k, w) - H IN IF x \in 0..C.n /\ y \in 0..(C.n - 1) THEN T.arcy[(y * (C.n + 1)) + x + 1]
                ELSE LET s == Spot(t, 2 * x, (2 * y) + 1) IN IF s = <<>> THEN None ELSE OwnEdge(s)
       bx == {k \in 1..Len(T.dx) : ~Close(T.dx[k], ex(k), 2)}
       by == {k \in 1..Len(T.dy) : ~Close(T.dy[k], ey(k), 2)}
   IN If(p = {}, <<"place", t, p>>) \cup If(a = {}, <<"area", t, a>>) \cup If(bx = {}, <<"dx", t, bx>>) \cup If(by = {}, <<"dy", t, by>>) \cup If(T.turn, <<"angle", t>>))
\* ---- nests ----
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
BadNest(k) == LET t == 6 + k  T == O.tiles[t]  z == Size(t)  q == Nests[k]  pz == Size(q.parent)  w == z[1] + 1  U == O.tiles[q.parent]  g == 2 * q.r IN
  IF ~T.ok THEN {<<"unreadable", t>>} ELSE
  If(T.dims = <<z[1], z[2], z[1] + 1, z[2] + 1>>, <<"size", t, T.dims>>) \cup If(T.name = "tile" \o ToString(t) /\ T.nest = "TRUE" /\ T.range, <<"name", t, T.name, T.nest>>) \cup If(T.la = C.la, <<"lengths", t>>) \cup
  (IF T.dims # <<z[1], z[2], z[1] + 1, z[2] + 1>> \/ ~U.ok THEN {} ELSE
   LET p == {x \in 1..(w * (z[2] + 1)) : Anchor(k, Col(x, w), Row(x, w)) # <<>> /\ T.near[x] # Anchor(k, Col(x, w), Row(x, w))}
       a == {x \in 1..(z[1] * z[2]) : ~Close(T.area[x], T.cell[x], 3)}
       \* the cells of the nest within a model cell of the parent have its area
       cs == {c \in (q.is..q.ie) \X (q.js..q.je) : c[1] % 2 = 1 /\ c[2] % 2 = 1}
       mine(c) == LET i0 == (c[1] - q.is) * q.r  j0 == (c[2] - q.js) * q.r IN Sum(T.area, {((j0 + y) * z[1]) + i0 + x + 1 : <<x, y>> \in (0..(g - 1)) \X (0..(g - 1))})
       theirs(c) == Sum(U.area, {((c[2] - 1 + y) * pz[1]) + c[1] - 1 + x + 1 : <<x, y>> \in {0, 1} \X {0, 1}})
       s == {c \in cs : ~Close(mine(c), theirs(c), 4 + (3 * g * g))}
       \* along the grid lines of the parent the points of the nest are equally spaced
       lx == {x \in 1..(z[1] * (z[2] + 1)) : Row(x, z[1]) % g = 0 /\ ~Close(T.arcx[x], T.arcx[x - (Col(x, z[1]) % g)], 4)}
       ly == {x \in 1..(w * z[2]) : Col(x, w) % g = 0 /\ ~Close(T.arcy[x], T.arcy[x - (w * (Row(x, w) % g))], 4)}
       bx == {x \in 1..Len(T.dx) : ~Close(T.dx[x], T.arcx[x], 2)}
       by == {x \in 1..Len(T.dy) : ~Close(T.dy[x], T.arcy[x], 2)}
   IN If(p = {}, <<"anchor", t, p>>) \cup If(a = {}, <<"area", t, a>>) \cup If(s = {}, <<"parent area", t, s>>) \cup If(~C.la \/ lx \cup ly = {}, <<"spacing", t, lx, ly>>) \cup
      If(bx = {}, <<"dx", t, bx>>) \cup If(by = {}, <<"dy", t, by>>) \cup If(T.turn, <<"angle", t>>))
Total == LET w == C.n + (2 * H)  S(t) == Sum(O.tiles[t].area, {((y + H) * w) + x + H + 1 : <<x, y>> \in (0..(C.n - 1)) \X (0..(C.n - 1))}) IN S(1) + S(2) + S(3) + S(4) + S(5) + S(6)
Failed == IF C.bad \/ ~Accepted THEN If(O.rc # 0, <<"accepted">>)
          ELSE If(O.rc = 0, <<"status", O.rc>>) \cup If({O.dir[k] : k \in 1..Len(O.dir)} = Names, <<"files", O.dir>>) \cup UNION {BadTile(t) : t \in 1..6} \cup UNION {BadNest(k) : k \in 1..Len(Nests)} \cup
               If((\E t \in 1..6 : ~O.tiles[t].ok) \/ Close(Total, 1000000000, 6 * C.n * C.n), <<"sphere">>)
VARIABLE told
View == <<C.id, written, told>>
TRInit == Init /\ told = FALSE
Tell == Done /\ ~told /\ PrintT(<<"VERDICT", C.id, Failed>>) /\ told' = TRUE /\ UNCHANGED vars
TRNext == (Next /\ UNCHANGED told) \/ Tell
=============================================================================
