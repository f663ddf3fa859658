------------------------------- MODULE Fms -------------------------------
(* The domain decomposition of FMS, shared by the tools: layouts and intervals. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL Max(a, b) == IF a > b THEN a ELSE b
LOCAL Fill(n, v) == [k \in 1..n |-> v]
\* ---- FMS's symmetric cut of 0..n-1 into nd intervals ---------------------------------
Ceil(a, b) == (a + b - 1) \div b
Sym(n, nd) == \/ (nd % 2 = 0 /\ n % 2 = 0)
              \/ (nd % 2 = 1 /\ n % 2 = 1)
              \/ (nd % 2 = 1 /\ n % 2 = 0 /\ nd < n \div 2)
RECURSIVE Extend(_, _, _)
\* s: [k next interval, iss its start, imax, ndmax, lo, hi]
Extend(n, nd, s) ==
  IF s.k = nd THEN [lo |-> s.lo, hi |-> s.hi]
  ELSE
  LET mir == nd - 1 - s.k
      first == s.k < (nd - 1) \div 2 + 1
      iss == IF ~first /\ Sym(n, nd) THEN s.lo[s.k + 1] ELSE s.iss
      ie  == IF ~first /\ Sym(n, nd) THEN s.hi[s.k + 1] ELSE iss + Ceil(s.imax - iss + 1, s.ndmax - s.k) - 1
      m   == first /\ mir > s.k /\ Sym(n, nd)
      mlo == Max(n - 1 - ie, ie + 1)
      mhi == Max(n - 1 - iss, ie + 1)
      lo1 == [s.lo EXCEPT ![s.k + 1] = iss]
      hi1 == [s.hi EXCEPT ![s.k + 1] = ie]
  IN  Extend(n, nd, [k |-> s.k + 1, iss |-> ie + 1,
                     imax |-> IF m THEN mlo - 1 ELSE s.imax, ndmax |-> IF m THEN s.ndmax - 1 ELSE s.ndmax,
                     lo |-> IF m THEN [lo1 EXCEPT ![mir + 1] = mlo] ELSE lo1,
                     hi |-> IF m THEN [hi1 EXCEPT ![mir + 1] = mhi] ELSE hi1])
Extents(n, nd) ==
  IF nd = 0 THEN [lo |-> <<>>, hi |-> <<>>] ELSE
  TLCEval(Extend(n, nd, [k |-> 0, iss |-> 0, imax |-> n - 1, ndmax |-> nd,
                         lo |-> Fill(nd, 0), hi |-> Fill(nd, -1)]))
\* merged into ndio groups of consecutive intervals
Merge(e, nd, ndio) ==
  LET st == nd \div ndio IN
  TLCEval([lo |-> [k \in 1..ndio |-> e.lo[(k - 1) * st + 1]], hi |-> [k \in 1..ndio |-> e.hi[k * st]]])
\* what makes a cut acceptable: contiguous, covering, non-empty, as even as possible up to one cell per group
Partition(e, n, nd) ==
  /\ Len(e.lo) = nd /\ Len(e.hi) = nd
  /\ e.lo[1] = 0 /\ e.hi[nd] = n - 1
  /\ \A k \in 1..nd : e.lo[k] <= e.hi[k]
  /\ \A k \in 1..(nd - 1) : e.lo[k + 1] = e.hi[k] + 1

\* layout of np processes on an nx by ny grid: the aspect ratio of the grid, rounded, then reduced to a divisor
Divisions(nx, ny, np) ==
  LET near == {d \in 1..np : ((2 * d) - 1) * ((2 * d) - 1) * ny <= 4 * np * nx}     \* d - 1/2 <= sqrt(np nx/ny)
      exact(d) == ((2 * d) - 1) * ((2 * d) - 1) * ny = 4 * np * nx
      r == IF near = {} THEN 1 ELSE LET m == CHOOSE d \in near : \A e \in near : e <= d IN IF exact(m) /\ m > 1 THEN m - 1 ELSE m
      i == CHOOSE d \in 1..r : np % d = 0 /\ \A e \in 1..r : np % e = 0 => e <= d
  IN <<i, np \div i>>
=============================================================================
