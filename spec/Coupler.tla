------------------------------ MODULE Coupler ------------------------------
(* make_coupler_mosaic: the exchange grids between atmosphere, land, ocean (and
   wave) mosaics of longitude-latitude tiles.  Longitude is a circle of N units, a
   latitude edge k stands for asin(k/S); a cell is a set of unit columns and a set
   of unit rows, so areas (in tenths of a unit box, because ocean cells may be
   partly land) are integers.  The processes take contiguous blocks of atmosphere
   cells, then of land cells, then of wave cells, and the pieces are gathered. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS Cfgs, OneSchedule
VARIABLES cfg, pc, next, xs
vars == <<cfg, pc, next, xs>>
C == cfg
NX(t) == Len(t.lon) - 1
NY(t) == Len(t.lat) - 1
\* the cells of a component, tile after tile, row after row
Cell(n, t, i, j) == [n |-> n, i |-> i, j |-> j, w |-> t.lon[i], X |-> {u % C.N : u \in t.lon[i]..(t.lon[i + 1] - 1)}, Y |-> t.lat[j]..(t.lat[j + 1] - 1)]
TileCells(n, t) == [c \in 1..(NX(t) * NY(t)) |-> Cell(n, t, ((c - 1) % NX(t)) + 1, ((c - 1) \div NX(t)) + 1)]
CellsOf(ts) == LET RECURSIVE f(_) f(n) == IF n > Len(ts) THEN <<>> ELSE TileCells(n, ts[n]) \o f(n + 1) IN f(1)
Area(c) == Cardinality(c.X) * Cardinality(c.Y)
\* ocean: a single tile that does not reach the south pole is continued to it by a row of land
Wet(c) == IF c.j = 0 THEN 0 ELSE C.frac[c.n][((c.j - 1) * NX(C.ocn[c.n])) + c.i]
South == IF Len(C.ocn) = 1 /\ C.ocn[1].lat[1] > -C.S
         THEN {[n |-> 1, i |-> i, j |-> 0, w |-> C.ocn[1].lon[i], X |-> {u % C.N : u \in C.ocn[1].lon[i]..(C.ocn[1].lon[i + 1] - 1)}, Y |-> (-C.S)..(C.ocn[1].lat[1] - 1)] : i \in 1..NX(C.ocn[1])}
         ELSE {}
Ocean == TLCEval(Range(CellsOf(C.ocn)) \cup South)
Lnd == TLCEval(CellsOf(C.lnd))
Meet(a, b) == (a.X \cap b.X) # {} /\ (a.Y \cap b.Y) # {}
Id(c) == <<c.n, c.i, c.j>>
Min2(a, b) == IF a < b THEN a ELSE b
Big(area, least) == area * 100 > C.thr * 10 * least   \* thr in percent, area in tenths
\* contribution of a box X x Y with weight f (tenths): area, first moment of the eastward distance (longitude
\* times cosine of latitude, table H, in 1e-4) about the middle of a cell, first moment of latitude (table F, in 1e-5)
Lon(X, c) == MapThenSumSet(LAMBDA u : (2 * ((u - c.w) % C.N)) + 1 - Cardinality(c.X), X)
Cos(Y) == MapThenSumSet(LAMBDA k : C.H[k + C.S + 2] - C.H[k + C.S + 1], Y)
Lat(Y) == MapThenSumSet(LAMBDA k : C.F[k + C.S + 2] - C.F[k + C.S + 1], Y)
Box(X, Y, f, p, q) == [A |-> f * Cardinality(X) * Cardinality(Y), M |-> f * Cos(Y) * Lon(X, p), M2 |-> f * Cos(Y) * Lon(X, q), G |-> f * Cardinality(X) * Lat(Y)]
AddAll(bs) == [A |-> MapThenSumSet(LAMBDA b : b[2].A, bs), M |-> MapThenSumSet(LAMBDA b : b[2].M, bs), M2 |-> MapThenSumSet(LAMBDA b : b[2].M2, bs), G |-> MapThenSumSet(LAMBDA b : b[2].G, bs)]
X2(p, q, b) == [p |-> Id(p), q |-> Id(q), A |-> b.A, M |-> b.M, M2 |-> b.M2, G |-> b.G]
\* exchange cells of a cell of another component with the wet part of the ocean
WithSea(p, ocean) == {x \in {X2(p, o, Box(p.X \cap o.X, p.Y \cap o.Y, Wet(o), p, o)) : o \in {o \in ocean : Meet(p, o) /\ Wet(o) > 0}} :
                        LET o == CHOOSE o \in ocean : Id(o) = x.q IN Big(x.A, Min2(Area(p), Area(o)))}
\* exchange cells of an atmosphere cell with the land cells, where the ocean is not wet
WithLand(a, lnd, ocean) ==
  LET ls == {l \in lnd : (IF C.same THEN Id(l) = Id(a) ELSE Meet(a, l)) /\ Big(10 * Cardinality(a.X \cap l.X) * Cardinality(a.Y \cap l.Y), Min2(Area(a), Area(l)))}
      part(l) == AddAll({pr \in {<<o, Box((a.X \cap l.X) \cap o.X, (a.Y \cap l.Y) \cap o.Y, 10 - Wet(o), a, l)>> : o \in {o \in ocean : Meet(a, o) /\ Meet(l, o) /\ Wet(o) < 10}} : pr[2].A > 0 /\ Big(pr[2].A, Min2(Area(a), Area(l)))})
  IN {x \in {X2(a, l, part(l)) : l \in ls} : x.A > 0 /\ LET l == CHOOSE l \in ls : Id(l) = x.q IN Big(x.A, Min2(Area(a), Area(l)))}
----------------------------------------------------------------------------
\* block of cells of process p when n cells are divided
From(p, n) == ((p * n) \div C.np) + 1
To(p, n) == ((p + 1) * n) \div C.np
Phases == <<"atm", "lnd", "wav", "done">>
Work(ph) == CASE ph = "atm" -> CellsOf(C.atm) [] ph = "lnd" -> (IF C.same THEN <<>> ELSE CellsOf(C.lnd)) [] ph = "wav" -> CellsOf(C.wav) [] ph = "done" -> <<>>
P == 0..(C.np - 1)
Init == /\ cfg \in Cfgs /\ pc = 1 /\ next = [p \in 0..(cfg.np - 1) |-> 0]
        /\ xs = [axo |-> {}, axl |-> {}, lxo |-> {}, wxo |-> {}]
Done == Phases[pc] = "done"
\* process p works on its next cell
Take(p) ==
  /\ ~Done
  /\ LET cells == Work(Phases[pc])  k == From(p, Len(cells)) + next[p] IN
     /\ k <= To(p, Len(cells))
     /\ OneSchedule => \A r \in P : r < p => From(r, Len(cells)) + next[r] > To(r, Len(cells))
     /\ next' = [next EXCEPT ![p] = @ + 1]
     /\ xs' = CASE Phases[pc] = "atm" -> [xs EXCEPT !.axo = @ \cup WithSea(cells[k], Ocean), !.axl = @ \cup WithLand(cells[k], Range(Lnd), Ocean)]
                [] Phases[pc] = "lnd" -> [xs EXCEPT !.lxo = @ \cup WithSea(cells[k], Ocean)]
                [] Phases[pc] = "wav" -> [xs EXCEPT !.wxo = @ \cup WithSea(cells[k], Ocean)]
  /\ UNCHANGED <<cfg, pc>>
\* all processes have finished: the pieces are gathered and the next exchange grid begins
Gather == /\ ~Done
          /\ LET n == Len(Work(Phases[pc])) IN \A p \in P : From(p, n) + next[p] > To(p, n)
          /\ pc' = pc + 1 /\ next' = [p \in P |-> 0] /\ UNCHANGED <<cfg, xs>>
Next == Gather \/ \E p \in P : Take(p)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Of(S, c) == MapThenSumSet(LAMBDA x : x.A, {x \in S : x.p = Id(c)})
By(S, c) == MapThenSumSet(LAMBDA x : x.A, {x \in S : x.q = Id(c)})
Counts(x) == x.p[1] # C.nest            \* a nest covers what its parent covers already
Atm == Range(CellsOf(C.atm))
Sure == Done /\ C.thr = 0
\* every atmosphere cell is tiled: nothing twice, and completely where ocean and land grids cover it
Tiled == Sure => \A a \in Atm : LET s == Of(xs.axo, a) + Of(xs.axl, a) IN s <= 10 * Area(a) /\ (C.full => s = 10 * Area(a))
\* the wet part of every ocean cell below the atmosphere is exchanged with it, completely
Sea == Sure => \A o \in Ocean : LET s == By({x \in xs.axo : Counts(x)}, o) IN s <= Wet(o) * Area(o) /\ (C.over => s = Wet(o) * Area(o))
\* a land cell is made of what it exchanges with the atmosphere (land) and with the ocean (water)
Shore == Sure /\ C.full /\ C.over => \A l \in Range(Lnd) :
            By({x \in xs.axl : Counts(x)}, l) + (IF C.same THEN Of(xs.axo, l) ELSE Of(xs.lxo, l)) = 10 * Area(l)
\* the wave grid sees the same ocean
Waves == Sure /\ C.wfull => \A o \in Ocean : By(xs.wxo, o) = Wet(o) * Area(o)
\* no pair of cells is listed twice
Once == Done => \A S \in {xs.axo, xs.axl, xs.lxo, xs.wxo} : Cardinality({<<x.p, x.q>> : x \in S}) = Cardinality(S)
----------------------------------------------------------------------------
\* centroid distances, longitude in 1/1000 half units, latitude in 1e-5 radian
Cl(M, A) == M \div (A * 10)
Cg(G, A) == (G * C.S) \div A
Sum(S, f(_)) == MapThenSumSet(f, S)
SumM(S) == Sum(S, LAMBDA x : x.M)
SumM2(S) == Sum(S, LAMBDA x : x.M2)
SumG(S) == Sum(S, LAMBDA x : x.G)
SumA(S) == Sum(S, LAMBDA x : x.A)
=============================================================================
