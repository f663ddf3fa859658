------------------------------- MODULE Land -------------------------------
(* Files "compressed by gathering": combine-ncc (many files into one),        *)
(* scatter-ncc (one into many), decompress-ncc (onto the full grid).          *)
(* A compressed dimension has a coordinate variable whose values are          *)
(* positions (0-based, row major) in the box of the dimensions it names;      *)
(* negative values mark entries without data.                                 *)
EXTENDS NcFile

CONSTANTS Cfgs
VARIABLES cfg,    \* operation, options, input files
          pc,     \* start, work, done
          i,      \* next input file (combine, decompress) or piece (scatter)
          acc,    \* what has been gathered so far
          outs,   \* output files
          rc
vars == <<cfg, pc, i, acc, outs, rc>>
C == cfg
Lst == C.files[Len(C.files)]           \* structure and uncompressed data come from the last file
NF == Len(C.files)
Comp(f, d) == f.dims[d].comp # <<>>
DimIdx(f, n) == CHOOSE d \in 1..Len(f.dims) : f.dims[d].n = n
Has(f, n) == \E d \in 1..Len(f.dims) : f.dims[d].n = n
CDims(f, v) == {j \in 1..Len(v.d) : Comp(f, v.d[j])}
ShapeOf(f, v) == TLCEval([j \in 1..Len(v.d) |-> f.dims[v.d[j]].s])
\* insert the entry e = <<index, file, position>> behind every entry with an index not larger
Insert(s, e) ==
  LET k == Cardinality({q \in 1..Len(s) : s[q][1] <= e[1]})
  IN  TLCEval(SubSeq(s, 1, k) \o <<e>> \o SubSeq(s, k + 1, Len(s)))
RECURSIVE InsertAll(_, _, _, _)
InsertAll(s, idx, f, p) ==
  IF p > Len(idx) THEN s
  ELSE InsertAll(IF idx[p] >= 0 THEN Insert(s, <<idx[p], f, p>>) ELSE s, idx, f, p + 1)

\* replace dimension cp of v by the entries ents (or leave it at its fill value if there are none)
Select(v, cp, shp, ents, Data(_)) ==
  LET n  == Max(Len(ents), 1)
      os == TLCEval([shp EXCEPT ![cp] = n])
      st == Strides(os)
  IN  [p \in 1..Prod(os) |->
        IF ents = <<>> THEN v.fill ELSE
        LET x == Coords(p - 1, os, st)
            e == ents[x[cp] + 1]
            a == Data(e[2])                               \* [shape, x] of the variable in that file
            y == TLCEval([x EXCEPT ![cp] = e[3] - 1])
        IN  a.x[Dot(y, Strides(a.shp)) + 1]]

\* ---- combine ---------------------------------------------------------------------------
TwoComp == \E k \in 1..Len(Lst.vars) : Cardinality(CDims(Lst, Lst.vars[k])) > 1
VarIn(f, n) == LET ff == C.files[f]
                   k == CHOOSE k \in 1..Len(ff.vars) : ff.vars[k].n = n
               IN [shp |-> ShapeOf(ff, ff.vars[k]), x |-> ff.vars[k].x]
Combined ==
  [dims |-> [d \in 1..Len(Lst.dims) |-> [n |-> Lst.dims[d].n, u |-> Lst.dims[d].u,
                s |-> IF Comp(Lst, d) THEN Max(1, Len(acc[d])) ELSE Lst.dims[d].s]],
   vars |-> [k \in 1..Len(Lst.vars) |->
      LET v == Lst.vars[k]
          cds == CDims(Lst, v)
      IN  [n |-> v.n, t |-> v.t, d |-> [j \in 1..Len(v.d) |-> Lst.dims[v.d[j]].n], a |-> v.a,
           x |-> IF cds = {} THEN v.x
                 ELSE LET cp == CHOOSE j \in cds : TRUE
                          Dt(f) == VarIn(f, v.n)
                      IN  TLCEval(Select(v, cp, ShapeOf(Lst, v), acc[v.d[cp]], Dt))]]]

\* ---- scatter ---------------------------------------------------------------------------
NLon == Lst.dims[DimIdx(Lst, "lon")].s
NLat == Lst.dims[DimIdx(Lst, "lat")].s
\* piece of the grid cell of an index
PieceOf(e) ==
  LET ij == e % (NLon * NLat)
      ii == (ij % NLon) \div (NLon \div C.nx)
      jj == (ij \div NLon) \div (NLat \div C.ny)
  IN  jj * C.nx + ii
NoGrid == ~Has(Lst, "lon") \/ ~Has(Lst, "lat")
Uneven == IF NoGrid THEN TRUE ELSE NLon % C.nx # 0 \/ NLat % C.ny # 0
\* variables scatter-ncc does not handle: uncompressed of rank above 1, or not of the form ([record,] [zfull,] compressed)
Beyond(k) ==
  LET v == Lst.vars[k]
      r == Len(v.d)
      Ok(d) == Lst.dims[d].u \/ Lst.dims[d].n = "zfull" \/ Lst.dims[d].s = 1
  IN  \/ CDims(Lst, v) = {} /\ r > 1
      \/ CDims(Lst, v) # {} /\ CDims(Lst, v) # {r}
      \/ CDims(Lst, v) = {r} /\ \E j \in 1..(r - 1) : ~Ok(v.d[j])
Scattered(q) ==
  LET ents == TLCEval([d \in 1..Len(Lst.dims) |-> IF Comp(Lst, d) THEN
                 LET Keep(e) == PieceOf(e[1]) = q IN TLCEval(SelectSeq(InsertAll(<<>>, Lst.dims[d].idx, 1, 1), Keep)) ELSE <<>>])
  IN [dims |-> [d \in 1..Len(Lst.dims) |-> [n |-> Lst.dims[d].n, u |-> Lst.dims[d].u,
                s |-> IF Comp(Lst, d) THEN Max(1, Len(ents[d])) ELSE Lst.dims[d].s]],
      vars |-> [k \in 1..Len(Lst.vars) |->
        LET v == Lst.vars[k]
            cds == CDims(Lst, v)
        IN  [n |-> v.n, t |-> v.t, d |-> [j \in 1..Len(v.d) |-> Lst.dims[v.d[j]].n], a |-> v.a,
             x |-> IF cds = {} THEN v.x
                   ELSE LET cp == CHOOSE j \in cds : TRUE
                            Dt(f) == [shp |-> ShapeOf(Lst, v), x |-> v.x]
                        IN  TLCEval(Select(v, cp, ShapeOf(Lst, v), ents[v.d[cp]], Dt))]]]

\* ---- decompress ------------------------------------------------------------------------
RECURSIVE Expand(_, _, _)
Expand(f, ds, j) == IF j > Len(ds) THEN <<>>
  ELSE (IF Comp(f, ds[j]) THEN [q \in 1..Len(f.dims[ds[j]].comp) |-> DimIdx(f, f.dims[ds[j]].comp[q])] ELSE <<ds[j]>>) \o Expand(f, ds, j + 1)
Kept == SelectSeq([k \in 1..Len(Lst.vars) |-> k],
          LAMBDA k : ~(\E d \in 1..Len(Lst.dims) : Comp(Lst, d) /\ Lst.dims[d].n = Lst.vars[k].n))
FullShape(v) == LET e == TLCEval(Expand(Lst, v.d, 1)) IN TLCEval([j \in 1..Len(e) |-> Lst.dims[e[j]].s])
\* position (0-based) in the expanded array of element x (0-based coordinates) of variable v in file f; -1: no data
RECURSIVE PosFrom(_, _, _, _)
PosFrom(f, v, x, j) ==
  IF j = 0 THEN [p |-> 0, s |-> 1, ok |-> TRUE]
  ELSE LET rest == PosFrom(f, v, x, j - 1)      \* slower dimensions
           d    == f.dims[v.d[j]]
           len  == IF d.comp # <<>> THEN Prod(TLCEval([q \in 1..Len(d.comp) |-> f.dims[DimIdx(f, d.comp[q])].s])) ELSE d.s
           at   == IF d.comp # <<>> THEN d.idx[x[j] + 1] ELSE x[j]
       IN  [p |-> rest.p * len + Max(at, 0), s |-> rest.s * len, ok |-> rest.ok /\ at >= 0]
\* the array after the values of file f were put in; cells never given carry no value (0)
PutFile(a, f, n) ==
  LET ff == C.files[f]
      k  == CHOOSE k \in 1..Len(ff.vars) : ff.vars[k].n = n
      v  == ff.vars[k]
      shp == ShapeOf(ff, v)
      st == Strides(shp)
      pos == TLCEval([q \in 1..Len(v.x) |-> LET r == PosFrom(ff, v, Coords(q - 1, shp, st), Len(shp)) IN IF r.ok THEN r.p + 1 ELSE 0])
      inv == TLCEval([p \in Range(pos) |-> CHOOSE q \in 1..Len(v.x) : pos[q] = p])
  IN  TLCEval([p \in 1..Len(a) |-> IF p \in Range(pos) THEN v.x[inv[p]] ELSE a[p]])
Decompressed ==
  LET keptDims == SelectSeq([d \in 1..Len(Lst.dims) |-> d], LAMBDA d : ~Comp(Lst, d))
  IN [dims |-> [q \in 1..Len(keptDims) |-> [n |-> Lst.dims[keptDims[q]].n, u |-> Lst.dims[keptDims[q]].u, s |-> Lst.dims[keptDims[q]].s]],
      vars |-> [q \in 1..Len(Kept) |->
         LET v == Lst.vars[Kept[q]]
             e == Expand(Lst, v.d, 1)
         IN  [n |-> v.n, t |-> v.t, d |-> [j \in 1..Len(e) |-> Lst.dims[e[j]].n],
              a |-> IF C.addmiss /\ CDims(Lst, v) # {} /\ ~v.hasmiss THEN v.a \o <<v.missatt>> ELSE v.a,
              x |-> TLCEval([p \in 1..Len(acc[q]) |-> IF acc[q][p] = 0 THEN v.gap ELSE acc[q][p]])]]]

\* ---- behaviour -------------------------------------------------------------------------
Init == cfg \in Cfgs /\ pc = "start" /\ i = 1 /\ acc = <<>> /\ outs = <<>> /\ rc = -1
Refused == \/ C.bad
           \/ C.op = "combine" /\ TwoComp
           \/ C.op = "scatter" /\ (Uneven \/ \E k \in 1..Len(Lst.vars) : Beyond(k))
Refuse == pc = "start" /\ Refused /\ pc' = "done" /\ rc' = 1 /\ UNCHANGED <<cfg, i, acc, outs>>
Begin == /\ pc = "start" /\ ~Refused /\ pc' = "work" /\ UNCHANGED <<cfg, i, outs, rc>>
         /\ acc' = CASE C.op = "combine" -> [d \in 1..Len(Lst.dims) |-> <<>>]
                     [] C.op = "decompress" -> [q \in 1..Len(Kept) |-> Fill(Prod(FullShape(Lst.vars[Kept[q]])), 0)]
                     [] OTHER -> <<>>
Gather == /\ pc = "work" /\ C.op = "combine" /\ i <= NF /\ i' = i + 1 /\ UNCHANGED <<cfg, pc, outs, rc>>
          /\ acc' = TLCEval([d \in 1..Len(Lst.dims) |-> IF Comp(Lst, d)
                       THEN InsertAll(acc[d], C.files[i].dims[DimIdx(C.files[i], Lst.dims[d].n)].idx, i, 1) ELSE <<>>])
Put == /\ pc = "work" /\ C.op = "decompress" /\ i <= NF /\ i' = i + 1 /\ UNCHANGED <<cfg, pc, outs, rc>>
       /\ acc' = TLCEval([q \in 1..Len(Kept) |-> PutFile(acc[q], i, Lst.vars[Kept[q]].n)])
Write == /\ pc = "work" /\ C.op # "scatter" /\ i = NF + 1 /\ pc' = "done" /\ rc' = 0 /\ UNCHANGED <<cfg, i, acc>>
         /\ outs' = << IF C.op = "combine" THEN Combined ELSE Decompressed >>
CutOne == /\ pc = "work" /\ C.op = "scatter" /\ i <= C.nx * C.ny /\ i' = i + 1 /\ UNCHANGED <<cfg, pc, acc, rc>>
          /\ outs' = Append(outs, Scattered(i - 1))
CutEnd == pc = "work" /\ C.op = "scatter" /\ i = C.nx * C.ny + 1 /\ pc' = "done" /\ rc' = 0 /\ UNCHANGED <<cfg, i, acc, outs>>
Next == Refuse \/ Begin \/ Gather \/ Put \/ Write \/ CutOne \/ CutEnd

\* ---- properties ------------------------------------------------------------------------
TypeOK == pc \in {"start", "work", "done"} /\ rc \in {-1, 0, 1}
Valid(idx) == SelectSeq(idx, LAMBDA v : v >= 0)
Sorted(s) == \A a \in 1..(Len(s) - 1) : s[a] <= s[a + 1]
\* combine: every entry with data is there once, in ascending order of its position
CombineKeepsAll ==
  (C.op = "combine" /\ pc = "work" /\ i = NF + 1) =>
    \A d \in 1..Len(Lst.dims) : Comp(Lst, d) =>
      LET all == UNION {{<<f, p>> : p \in {p \in 1..Len(C.files[f].dims[DimIdx(C.files[f], Lst.dims[d].n)].idx) :
                           C.files[f].dims[DimIdx(C.files[f], Lst.dims[d].n)].idx[p] >= 0}} : f \in 1..NF}
      IN  /\ {<<acc[d][q][2], acc[d][q][3]>> : q \in 1..Len(acc[d])} = all
          /\ Len(acc[d]) = Cardinality(all)
          /\ Sorted([q \in 1..Len(acc[d]) |-> acc[d][q][1]])
\* scatter: the pieces' valid indices partition the input's
ScatterKeepsAll ==
  (C.op = "scatter" /\ pc = "done" /\ rc = 0) =>
    \A d \in 1..Len(Lst.dims) : Comp(Lst, d) =>
      LET cnt(q) == Cardinality({p \in 1..Len(Lst.dims[d].idx) : Lst.dims[d].idx[p] >= 0 /\ PieceOf(Lst.dims[d].idx[p]) = q})
      IN  /\ Sum([q \in 1..(C.nx * C.ny) |-> cnt(q - 1)]) = Len(Valid(Lst.dims[d].idx))
          /\ \A q \in 1..(C.nx * C.ny) : outs[q].dims[d].s = Max(1, cnt(q - 1))
\* decompress: a cell has a value exactly when some file gives one
DecompressOnlyGiven ==
  (C.op = "decompress" /\ pc = "done" /\ rc = 0) =>
    \A q \in 1..Len(Kept) : LET v == Lst.vars[Kept[q]] IN
       CDims(Lst, v) = {} => acc[q] = v.x
=============================================================================
