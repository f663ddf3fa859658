------------------------------- MODULE Axis -------------------------------
(* The points of a grid axis made of regions, in ten-thousandths of a unit.                                 *)
(* b: bounds of the regions; n: number of supergrid cells of each (monotone cubic interpolation), or        *)
(* d: resolution at every bound (older algorithm, cosine between the bounds).                               *)
EXTENDS Integers, Sequences, TLC
M == 10000
MulDiv(a, p, q) == ((a \div q) * p) + (((a % q) * p) \div q)                 \* a * p / q without large products
Dig(r, q) == LET s == r * 100  t == (s % q) * 100 IN ((s \div q) * 100) + (t \div q)   \* r / q < 1 in ten-thousandths
Fix(p, q) == IF p >= 0 THEN ((p \div q) * M) + Dig(p % q, q) ELSE -(((-p \div q) * M) + Dig((-p) % q, q))
RECURSIVE SumN(_, _)
SumN(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumN(s, k - 1)
Refine(center) == IF center = "none" THEN 1 ELSE 2
\* --- regions given by numbers of cells
Slope(D, h, k, last) == \* slope at bound k of region widths D and cell numbers h, per cell
  IF k = 0 THEN LET p == (((2 * h[1]) + h[2]) * D[1] * h[2]) - (h[1] * h[1] * D[2]) IN IF p < 0 THEN 0 ELSE Fix(p, h[1] * h[2] * (h[1] + h[2]))
  ELSE IF k = last THEN LET p == (((2 * h[last]) + h[last - 1]) * D[last] * h[last - 1]) - (h[last] * h[last] * D[last - 1]) IN
                        IF p < 0 THEN 0 ELSE Fix(p, h[last] * h[last - 1] * (h[last] + h[last - 1]))
  ELSE LET w1 == (2 * h[k + 1]) + h[k]  w2 == h[k + 1] + (2 * h[k]) IN
       Fix((w1 + w2) * D[k] * D[k + 1], (w1 * h[k] * D[k + 1]) + (w2 * h[k + 1] * D[k]))
Knots(b, n, center) ==      \* the points of the interpolation: supergrid points or (with a center) every second one
  LET f == Refine(center)  R == Len(n)
      h == [k \in 1..R |-> n[k] \div f]  D == [k \in 1..R |-> b[k + 1] - b[k]]
      sl == TLCEval([k \in 0..R |-> IF R = 1 THEN 0 ELSE Slope(D, h, k, R)])
      reg(i) == CHOOSE k \in 1..R : SumN(h, k - 1) < i /\ i <= SumN(h, k)
      val(i) == IF i = 0 THEN b[1] * M
                ELSE LET k == reg(i)  s == i - SumN(h, k - 1)  H == h[k] IN
                IF R = 1 THEN (b[1] * M) + MulDiv(D[1] * M, i, H)
                ELSE (b[k] * M) + MulDiv(D[k] * M, (3 * s * s * H) - (2 * s * s * s), H * H * H)
                     + MulDiv(sl[k - 1], s * (H - s) * (H - s), H * H) - MulDiv(sl[k], s * s * (H - s), H * H)
  IN [i \in 0..SumN(h, R) |-> val(i)]
Spline(b, n, center) ==
  LET t == TLCEval(Knots(b, n, center))  N == SumN(n, Len(n)) IN
  IF center = "none" THEN t
  ELSE IF center = "t_cell" THEN [i \in 0..N |-> IF i % 2 = 0 THEN t[i \div 2] ELSE (t[i \div 2] + t[(i \div 2) + 1]) \div 2]
  ELSE LET mid(i) == (t[i \div 2] + t[(i \div 2) + 1]) \div 2 IN       \* corners halfway between the centers
       [i \in 0..N |-> IF i = 0 \/ i = N THEN t[i \div 2] ELSE IF i % 2 = 1 THEN mid(i) ELSE (mid(i - 1) + mid(i + 1)) \div 2]
\* --- regions given by resolutions
Cos12 == <<10000, 9659, 8660, 7071, 5000, 2588, 0, -2588, -5000, -7071, -8660, -9659, -10000>>
Cos(k) == LET m == k % 24 IN Cos12[(IF m <= 12 THEN m ELSE 24 - m) + 1]                                                       \* of k * 15 degrees
Cells(b, d) == [k \in 1..(Len(b) - 1) |-> (2 * (b[k + 1] - b[k])) \div (d[k] + d[k + 1])]
Whole(b, d, st) == \A k \in 1..(Len(b) - (IF st = 1 THEN 1 ELSE 2)) : (2 * (b[k + 1] - b[k])) % (d[k] + d[k + 1]) = 0
Widths(b, d, center, k) ==   \* widths of the cells of region k around the points: cells (t_cell) or the cells around the corners
  LET n == Cells(b, d)[k] IN [i \in 1..n |-> (((d[k] + d[k + 1]) * M) - ((d[k + 1] - d[k]) * Cos(IF center = "t_cell" THEN ((2 * i) - 1) * (6 \div n) ELSE i * (12 \div n)))) \div 2]
\* the last region with its far resolution stretched: as many cells as fit, in a wave of Cells as many cells as would fit on average
StretchN(b, d, st) == LET R == Len(b) - 1  e == st * d[R + 1]  w == b[R + 1] - b[R] IN ((4 * w) + d[R] + e) \div (2 * (d[R] + e))
RECURSIVE Fill(_, _, _, _, _)
Fill(b, d, st, i, sum) ==
  LET R == Len(b) - 1  e == st * d[R + 1]  n == StretchN(b, d, st)
      del == (((d[R] + e) * M) - ((e - d[R]) * Cos(i * (12 \div n)))) \div 2 IN
  IF sum + del <= ((b[R + 1] - b[R]) * M) + 10 THEN <<del>> \o Fill(b, d, st, i + 1, sum + del) ELSE <<>>
RECURSIVE Cat(_, _, _, _)
Cat(b, d, center, k) == IF k = Len(b) THEN <<>> ELSE Widths(b, d, center, k) \o Cat(b, d, center, k + 1)
RECURSIVE CatTo(_, _, _, _)
CatTo(b, d, k, last) == IF k > last THEN <<>> ELSE Widths(b, d, "c_cell", k) \o CatTo(b, d, k + 1, last)
Old(b, d, center, st) ==
  LET R == Len(b) - 1
      w == TLCEval(IF st = 1 THEN Cat(b, d, center, 1) ELSE CatTo(b, d, 1, R - 1) \o Fill(b, d, st, 1, ((d[R] - d[R + 1]) * M) \div 2))  N == Len(w)
      from[i \in 0..(2 * N)] == IF i = 0 THEN b[1] * M
        ELSE IF center = "t_cell" THEN from[i - 1] + (w[(i + 1) \div 2] \div 2)
        ELSE IF i = 1 THEN from[0] + ((d[1] * M) \div 2)
        ELSE from[i - 1] + (w[i \div 2] \div 2)
  IN from
=============================================================================
