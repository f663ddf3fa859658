------------------------------ MODULE Scatter ------------------------------
(* mppncscatter: cutting one file into the pieces of an nx by ny domain       *)
(* decomposition (optionally merged into a coarser io layout).                *)
EXTENDS NcFile, Fms

CONSTANTS Cfgs
VARIABLES cfg,     \* input file and options
          pc,      \* start, cut, done
          i,       \* next piece
          pieces,  \* pieces written so far
          rc
vars == <<cfg, pc, i, pieces, rc>>
C == cfg

\* ---- which dimensions are scattered -----------------------------------------------------
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EastUnits  == {"degrees_east", "degree_east", "degrees_e", "degree_e", "degreee", "degreese"}
NorthUnits == {"degrees_north", "degree_north", "degrees_n", "degree_n", "degreesn", "degreen"}
\* a dimension: [n, s, u, coord (a variable of that name exists), units, axis] (units, axis in lower case, "" when absent)
Axis(d) ==
  LET D == C.dims[d] IN
  IF D.u THEN "none"
  ELSE IF D.n \in Range(C.xdims) THEN "x"
  ELSE IF D.n \in Range(C.ydims) THEN "y"
  ELSE IF ~D.coord THEN "none"
  ELSE IF \E p \in EastUnits : Starts(D.units, p) THEN "x"
  ELSE IF \E p \in NorthUnits : Starts(D.units, p) THEN "y"
  ELSE IF Starts(D.axis, "x") THEN "x" ELSE IF Starts(D.axis, "y") THEN "y" ELSE "none"

Io == C.nxio > 0 /\ C.nyio > 0
NX == IF Io THEN C.nxio ELSE C.nx
NY == IF Io THEN C.nyio ELSE C.ny
NP == NX * NY
Scattered(d) == Axis(d) # "none"
TooMany == \E d \in 1..Len(C.dims) : \/ Axis(d) = "x" /\ C.dims[d].s < C.nx
                                     \/ Axis(d) = "y" /\ C.dims[d].s < C.ny
Uneven == Io /\ (C.nx % C.nxio # 0 \/ C.ny % C.nyio # 0)
Cuts(d) == LET nd == IF Axis(d) = "x" THEN C.nx ELSE C.ny
               ni == IF Axis(d) = "x" THEN NX ELSE NY
               e  == Extents(C.dims[d].s, nd)
           IN  IF Io THEN Merge(e, nd, ni) ELSE e
\* interval of dimension d in piece q (0-based; x fastest)
Lo(q, d) == CASE Axis(d) = "x" -> Cuts(d).lo[(q % NX) + 1] [] Axis(d) = "y" -> Cuts(d).lo[(q \div NX) + 1] [] OTHER -> 0
Hi(q, d) == CASE Axis(d) = "x" -> Cuts(d).hi[(q % NX) + 1] [] Axis(d) = "y" -> Cuts(d).hi[(q \div NX) + 1] [] OTHER -> C.dims[d].s - 1

Shape(v) == TLCEval([j \in 1..Len(C.vars[v].d) |-> C.dims[C.vars[v].d[j]].s])
IsCoord(v) == Len(C.vars[v].d) = 1 /\ C.vars[v].n = C.dims[C.vars[v].d[1]].n
Piece(q) ==
  LET lo == TLCEval([d \in 1..Len(C.dims) |-> Lo(q, d)])
      hi == TLCEval([d \in 1..Len(C.dims) |-> Hi(q, d)])
  IN [ dims |-> [d \in 1..Len(C.dims) |-> [n |-> C.dims[d].n, s |-> hi[d] - lo[d] + 1, u |-> C.dims[d].u]],
       lo |-> lo,
       dd |-> [v \in 1..Len(C.vars) |->
                 IF IsCoord(v) /\ Scattered(C.vars[v].d[1])
                 THEN LET d == C.vars[v].d[1] IN <<1, C.dims[d].s, lo[d] + 1, hi[d] + 1>> ELSE <<>>],
       x |-> [v \in 1..Len(C.vars) |->
                 LET vd == C.vars[v].d
                     l  == TLCEval([j \in 1..Len(vd) |-> lo[vd[j]]])
                     s  == TLCEval([j \in 1..Len(vd) |-> hi[vd[j]] - lo[vd[j]] + 1])
                 IN  TLCEval(Cut(C.vars[v].x, Shape(v), l, s))] ]

Init == cfg \in Cfgs /\ pc = "start" /\ i = 0 /\ pieces = <<>> /\ rc = -1
Refuse == pc = "start" /\ (Uneven \/ TooMany) /\ pc' = "done" /\ rc' = 1 /\ UNCHANGED <<cfg, i, pieces>>
Dry    == pc = "start" /\ ~(Uneven \/ TooMany) /\ C.dry /\ pc' = "done" /\ rc' = 0 /\ UNCHANGED <<cfg, i, pieces>>
Begin  == pc = "start" /\ ~(Uneven \/ TooMany) /\ ~C.dry /\ pc' = "cut" /\ UNCHANGED <<cfg, i, pieces, rc>>
CutOne == pc = "cut" /\ i < NP /\ pieces' = Append(pieces, Piece(i)) /\ i' = i + 1 /\ UNCHANGED <<cfg, pc, rc>>
Finish == pc = "cut" /\ i = NP /\ pc' = "done" /\ rc' = 0 /\ UNCHANGED <<cfg, i, pieces>>
Next == Refuse \/ Dry \/ Begin \/ CutOne \/ Finish

\* ---- properties -------------------------------------------------------------------------
Split == ~(Uneven \/ TooMany)
CutsArePartitions ==
  (pc = "start" /\ Split) =>
     \A d \in 1..Len(C.dims) : Scattered(d) => Partition(Cuts(d), C.dims[d].s, IF Axis(d) = "x" THEN NX ELSE NY)
\* pasting the pieces back gives the file
RECURSIVE Back(_, _)
Back(v, q) == IF q = 0 THEN Fill(Len(C.vars[v].x), 0)
              ELSE LET p == pieces[q]
                       vd == C.vars[v].d
                   IN  TLCEval(Paste(Back(v, q - 1), Shape(v), p.x[v], TLCEval([j \in 1..Len(vd) |-> p.dims[vd[j]].s]), TLCEval([j \in 1..Len(vd) |-> p.lo[vd[j]]])))
RoundTrip == (pc = "done" /\ rc = 0 /\ ~C.dry) => \A v \in 1..Len(C.vars) : Back(v, NP) = C.vars[v].x
\* no cell of a variable is written twice when both directions are scattered in it
CellsOnce == (pc = "done" /\ rc = 0 /\ ~C.dry) =>
  \A v \in 1..Len(C.vars) :
     ((\E d \in Range(C.vars[v].d) : Axis(d) = "x") /\ (\E d \in Range(C.vars[v].d) : Axis(d) = "y")
      /\ Cardinality({d \in Range(C.vars[v].d) : Scattered(d)}) = 2 /\ Len(C.vars[v].d) = Cardinality(Range(C.vars[v].d)))
     => Sum([q \in 1..NP |-> Len(pieces[q].x[v])]) = Len(C.vars[v].x)
TypeOK == pc \in {"start", "cut", "done"} /\ rc \in {-1, 0, 1} /\ Len(pieces) = i
=============================================================================
