------------------------------ MODULE Runoff ------------------------------
(* runoff_regrid: runoff on a longitude-latitude grid (cell centers given) is collected on the cells of an   *)
(* ocean grid, continued to the south pole, and what falls on dry cells goes to the nearest wet cell.        *)
(* Longitude is a circle of N units, the latitude edge k stands for asin(k/S); areas are numbers of unit     *)
(* boxes.  at[c] is the direction of the middle of output cell c, times 10000.                               *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS Cfgs
VARIABLES cfg, pc, rec, got, todo
vars == <<cfg, pc, rec, got, todo>>
C == cfg
NX(g) == Len(g.lon) - 1
NY(g) == Len(g.lat) - 1
Box(g, c) == LET i == ((c - 1) % NX(g)) + 1  j == ((c - 1) \div NX(g)) + 1 IN
             [X |-> {u % C.N : u \in g.lon[i]..(g.lon[i + 1] - 1)}, Y |-> g.lat[j]..(g.lat[j + 1] - 1)]
Common(a, b) == Cardinality(a.X \cap b.X) * Cardinality(a.Y \cap b.Y)
Ext == C.out.lat[1] > -C.S                                       \* the ocean grid ends north of the pole: a dry row is added
Full == IF Ext THEN [lon |-> C.out.lon, lat |-> <<-C.S>> \o C.out.lat] ELSE C.out
Shift == IF Ext THEN NX(C.out) ELSE 0
Cells == 1..(NX(Full) * NY(Full))
Wet(c) == c > Shift /\ C.wet[c - Shift]
Inputs == 1..(NX(C.inp) * NY(C.inp))
OutBox == TLCEval([c \in Cells |-> Box(Full, c)])
InBox == TLCEval([a \in Inputs |-> Box(C.inp, a)])
Area(c) == LET o == Box(Full, c) IN Cardinality(o.X) * Cardinality(o.Y)
Dot(a, b) == (C.at[a][1] * C.at[b][1]) + (C.at[a][2] * C.at[b][2]) + (C.at[a][3] * C.at[b][3])
Wets == {c \in Cells : Wet(c)}
Best(c) == Max({Dot(c, w) : w \in Wets})
Nearest(c) == LET b == TLCEval(Best(c)) IN {w \in Wets : Dot(c, w) >= b - 40000}       \* several when as near as makes no difference
FallsOn(r) == LET ob == TLCEval(OutBox)  ib == TLCEval(InBox)  live == {a \in Inputs : C.valid[a] /\ C.data[r][a] > 0} IN
              TLCEval([c \in Cells |-> MapThenSumSet(LAMBDA a : C.data[r][a] * Common(ib[a], ob[c]), live)])
Dry(g) == {c \in Cells : ~Wet(c) /\ g[c] > 0}
Init == /\ cfg \in Cfgs /\ pc = "collect" /\ rec = 1 /\ got = <<>> /\ todo = {}
Collect == /\ pc = "collect" /\ got' = FallsOn(rec) /\ todo' = {c \in Cells : ~Wet(c)} /\ pc' = "move" /\ UNCHANGED <<cfg, rec>>
\* dry cells one after the other
Move == /\ pc = "move" /\ todo # {}
        /\ LET c == Min(todo) IN
           /\ (got[c] > 0 => Wets # {}) /\ todo' = todo \ {c}
           /\ \E w \in (IF got[c] > 0 THEN Nearest(c) ELSE {c}) : got' = IF w = c THEN got ELSE [got EXCEPT ![w] = @ + got[c], ![c] = 0]
        /\ UNCHANGED <<cfg, pc, rec>>
\* runoff with no ocean to go to
Refuse == /\ pc = "move" /\ todo # {} /\ Wets = {} /\ got[Min(todo)] > 0 /\ pc' = "refused" /\ UNCHANGED <<cfg, rec, got, todo>>
Write == /\ pc = "move" /\ todo = {} /\ pc' = "written" /\ UNCHANGED <<cfg, rec, got, todo>>
More == /\ pc = "written" /\ rec < Len(C.data) /\ rec' = rec + 1 /\ pc' = "collect" /\ UNCHANGED <<cfg, got, todo>>
Next == Collect \/ Move \/ Refuse \/ Write \/ More
Done == pc = "written" /\ rec = Len(C.data)
\* ------------------------------------------------------------- properties
Total == MapThenSumSet(LAMBDA c : got[c], Cells)
Rain(r) == LET ob == TLCEval(OutBox)  ib == TLCEval(InBox) IN MapThenSumSet(LAMBDA a : C.data[r][a] * MapThenSumSet(LAMBDA c : Common(ib[a], ob[c]), Cells), {a \in Inputs : C.valid[a]})
Kept == pc = "written" => Total = Rain(rec)                             \* nothing is lost on the way
Global == Cardinality({u % C.N : u \in C.out.lon[1]..(C.out.lon[Len(C.out.lon)] - 1)}) = C.N /\ C.out.lat[Len(C.out.lat)] = C.S
AllFound == (pc = "written" /\ Global) => Total = MapThenSumSet(LAMBDA a : IF C.valid[a] THEN C.data[rec][a] * Cardinality(Box(C.inp, a).X) * Cardinality(Box(C.inp, a).Y) ELSE 0, Inputs)
Homeless == pc = "refused" => (Wets = {} /\ \E c \in Cells : got[c] > 0)
LandDry == pc = "written" => \A c \in Cells : ~Wet(c) => got[c] = 0                 \* land stays dry
=============================================================================
