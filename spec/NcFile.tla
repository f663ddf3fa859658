------------------------------- MODULE NcFile -------------------------------
(* Index arithmetic of netCDF arrays, shared by every specification here.     *)
(* An array is a flat sequence (row major, last dimension fastest) plus a     *)
(* shape; values are opaque integers (tokens: equal token <=> equal bits).    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE ProdFrom(_, _)
ProdFrom(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * ProdFrom(s, i + 1)
Prod(s) == ProdFrom(s, 1)

RECURSIVE SumFrom(_, _)
SumFrom(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumFrom(s, i + 1)
Sum(s) == SumFrom(s, 1)

\* stride of dimension j in a row-major array of that shape
Strides(shape) == TLCEval([j \in 1..Len(shape) |-> ProdFrom(shape, j + 1)])

\* coordinates (0-based) of flat position q (0-based)
Coords(q, shape, str) == TLCEval([j \in 1..Len(shape) |-> (q \div str[j]) % shape[j]])

RECURSIVE DotFrom(_, _, _)
DotFrom(a, b, i) == IF i > Len(a) THEN 0 ELSE a[i] * b[i] + DotFrom(a, b, i + 1)
Dot(a, b) == DotFrom(a, b, 1)

\* Paste the array src (shape sshape) into dst (shape dshape) with its corner at lo (0-based)
Paste(dst, dshape, src, sshape, lo) ==
  LET ds == Strides(dshape)
      ss == Strides(sshape)
  IN  [p \in 1..Len(dst) |->
        LET x == Coords(p - 1, dshape, ds)
            y == TLCEval([j \in 1..Len(dshape) |-> x[j] - lo[j]])
        IN  IF \A j \in 1..Len(y) : y[j] >= 0 /\ y[j] < sshape[j]
            THEN src[Dot(y, ss) + 1] ELSE dst[p]]

\* The box of src (shape sshape) with corner lo and shape bshape
Cut(src, sshape, lo, bshape) ==
  LET ss == Strides(sshape)
      bs == Strides(bshape)
  IN  [p \in 1..Prod(bshape) |->
        LET x == Coords(p - 1, bshape, bs)
            y == TLCEval([j \in 1..Len(bshape) |-> x[j] + lo[j]])
        IN  src[Dot(y, ss) + 1]]

Fill(n, v) == [p \in 1..n |-> v]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Range(s) == {s[i] : i \in 1..Len(s)}
IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
RECURSIVE SelectIdx(_, _, _)
Filter(s, Keep(_)) == SelectSeq(s, Keep)
SelectIdx(s, i, S) == IF i > Len(s) THEN <<>> ELSE (IF i \in S THEN <<s[i]>> ELSE <<>>) \o SelectIdx(s, i + 1, S)
=============================================================================
