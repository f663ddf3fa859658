----------------------------- MODULE MC_Masks -----------------------------
EXTENDS Masks, Json
CONSTANTS Deep
\* where the component is: nowhere, one place, two places
One(n, S) == [k \in 1..n |-> k \in S]
Marks(n, deep) == {{}} \cup {{a} : a \in 1..n} \cup (IF deep THEN {{a, b} : <<a, b>> \in {q \in (1..n) \X (1..n) : q[1] < q[2] /\ (q[1] + q[2]) % 5 = 0}} ELSE {{1, n}})
Sizes == IF Deep THEN {<<4, 3>>, <<6, 2>>, <<5, 3>>, <<2, 2>>} ELSE {<<4, 3>>, <<6, 2>>}
Bounds == {[cx |-> x, cy |-> y, trip |-> t] : <<x, y, t>> \in {q \in BOOLEAN \X BOOLEAN \X BOOLEAN : ~(q[2] /\ q[3])}}
Ocean(s, m, b, h, lay, p) == [kind |-> "ocean", nx |-> s[1], ny |-> s[2], on |-> <<One(s[1] * s[2], m)>>, cx |-> b.cx, cy |-> b.cy, trip |-> b.trip, halo |-> h, lay |-> lay, minp |-> p[1], maxp |-> p[2]]
Lays == {<<<<0, 0>>, <<1, 7>>>>, <<<<2, 2>>, <<0, 0>>>>, <<<<4, 1>>, <<0, 0>>>>, <<<<3, 2>>, <<0, 0>>>>, <<<<0, 0>>, <<5, 6>>>>}
Oceans == UNION {{Ocean(s, q[1], q[2], q[3], q[4][1], q[4][2]) : q \in Marks(s[1] * s[2], Deep) \X Bounds \X {0, 1, 2} \X Lays} : s \in Sizes}
\* the fold pairs columns: an even number of them; halos no wider than the grid
Fine(c) == (c.trip => c.nx % 2 = 0) /\ (c.cy => c.halo <= c.ny)
LandOf(n, t, m, lay) == [kind |-> "land", nx |-> n, ny |-> n, on |-> [k \in 1..6 |-> One(n * n, IF k = t THEN m ELSE {})], cx |-> FALSE, cy |-> FALSE, trip |-> FALSE, halo |-> 1, lay |-> lay, minp |-> 0, maxp |-> 0]
Lands == UNION {{LandOf(n, q[1], q[2], q[3]) : q \in (1..6) \X (Marks(n * n, Deep) \ {{}}) \X {l \in {<<1, 1>>, <<2, 1>>, <<1, 3>>, <<2, 2>>, <<3, 3>>} : l[1] <= n /\ l[2] <= n}} : n \in IF Deep THEN {1, 2, 3, 4} ELSE {1, 2, 3}}
MCCfgs == {c \in Oceans : Fine(c)} \cup Lands
Score(c) == (3 * c.halo) + c.lay[1] + (5 * c.maxp) + Cardinality({k \in 1..(c.nx * c.ny) : c.on[1][k] /\ k > 2}) + (IF c.cx THEN 1 ELSE 0) + (IF c.cy THEN 2 ELSE 0)
GENCfgs == {c \in Oceans : Fine(c) /\ Score(c) % 11 = 0} \cup {c \in Lands : (c.lay[1] + (2 * c.lay[2]) + c.nx) % 2 = 0}
VARIABLE told
Emit == Done /\ ~told /\ PrintT("CASE|" \o ToJson(C)) /\ told' = TRUE /\ UNCHANGED vars
GENInit == Init /\ told = FALSE
GENNext == (Next /\ UNCHANGED told) \/ Emit
MCInit == Init /\ told = FALSE
MCNext == Next /\ UNCHANGED told
=============================================================================
