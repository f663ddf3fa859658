------------------------------- MODULE Cube -------------------------------
(* The six tiles of a cubed sphere on a cube of edge m: where the point with
   coordinates (a, b), 0 <= a, b <= m, of tile t lies, and which point a place
   beyond the edge of a tile really is. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
At(m, t, a, b) ==
  CASE t = 1 -> <<m, a, b>> [] t = 2 -> <<m - a, m, b>> [] t = 3 -> <<m - a, m - b, m>>
    [] t = 4 -> <<0, m - b, m - a>> [] t = 5 -> <<b, 0, m - a>> [] t = 6 -> <<b, a, 0>>
\* coordinates of a place on tile t
On1(m, t, v) ==
  CASE t = 1 -> <<v[2], v[3]>> [] t = 2 -> <<m - v[1], v[3]>> [] t = 3 -> <<m - v[1], m - v[2]>>
    [] t = 4 -> <<m - v[3], m - v[2]>> [] t = 5 -> <<m - v[3], v[1]>> [] t = 6 -> <<v[2], v[1]>>
OnTile(m, t, v) == LET c == On1(m, t, v) IN At(m, t, c[1], c[2]) = v
Faces(m, v) == {t \in 1..6 : OnTile(m, t, v)}
\* the coordinate of a place that is constant on tile t
FaceOf(t) == CASE t \in {1, 4} -> 1 [] t \in {2, 5} -> 2 [] t \in {3, 6} -> 3
\* a place h beyond one edge of tile t, folded down onto the neighbouring face
Fold(m, t, v) == LET k == FaceOf(t)
                     o == {x \in 1..3 : v[x] < 0 \/ v[x] > m}
                     h == IF o = {} THEN 0 ELSE LET x == CHOOSE x \in o : TRUE IN IF v[x] < 0 THEN -v[x] ELSE v[x] - m
                     f(x) == IF v[x] < 0 THEN 0 ELSE IF v[x] > m THEN m ELSE IF x = k THEN (IF v[x] = 0 THEN h ELSE m - h) ELSE v[x]
                 IN <<f(1), f(2), f(3)>>
=============================================================================
