---------------------------- MODULE MC_Runoff ----------------------------
EXTENDS Runoff, Json
CONSTANTS Deep
\* directions of the middles, times 10000, on a circle of four longitudes and rows at sines k/4
Cs4 == <<<<7071, 7071>>, <<-7071, 7071>>, <<-7071, -7071>>, <<7071, -7071>>>>
Row == [k \in {-3, -2, -1, 1, 2, 3} |-> IF k \in {-3, 3} THEN <<6614, 7500>> ELSE IF k \in {-2, 2} THEN <<8660, 5000>> ELSE <<9682, 2500>>]
Dir(i, k) == LET r == Row[k]  z == IF k < 0 THEN -r[2] ELSE r[2] IN <<(r[1] * Cs4[((i - 1) % 4) + 1][1]) \div 10000, (r[1] * Cs4[((i - 1) % 4) + 1][2]) \div 10000, z>>
Mid(lat, j) == LET m == (lat[j] + lat[j + 1]) \div 2 IN IF m = 0 THEN 1 ELSE IF m > 3 THEN 3 ELSE IF m < -3 THEN -3 ELSE m
At(lon, lat) == [c \in 1..((Len(lon) - 1) * (Len(lat) - 1)) |-> Dir((((c - 1) % (Len(lon) - 1)) + (lon[1] \div 2)) + 1, Mid(lat, ((c - 1) \div (Len(lon) - 1)) + 1))]
OLat == {<<-4, 0, 4>>, <<-2, 2, 4>>}
ILat == {<<-4, -1, 2, 3>>, <<-2, 0, 2, 3>>}
OLon == <<0, 2, 4, 6, 8>>
ILons == {<<0, 2, 4, 6, 8>>, <<-3, -1, 1, 3, 5>>}
Cfg(ol, il, ilon, wet, d, v) == [N |-> 8, S |-> 4, inp |-> [lon |-> ilon, lat |-> il], out |-> [lon |-> OLon, lat |-> ol], wet |-> wet,
   data |-> <<d>>, valid |-> v, at |-> At(OLon, IF ol[1] > -4 THEN <<-4>> \o ol ELSE ol), timed |-> TRUE]
Pat == <<{1}, {6}, {1, 6}, {2, 3, 8}, {1, 2, 3, 4}, {5, 7}, {1, 3, 6, 8}, {}, 1..8, {8}, {3, 4, 7, 8}, {2, 4, 5}>>
Wets8 == {[k \in 1..8 |-> k \in Pat[n]] : n \in (IF Deep THEN 1..12 ELSE 1..8)}
One(n, k) == [a \in 1..n |-> IF a = k THEN 3 ELSE IF a = ((k * 5) % n) + 1 THEN 2 ELSE IF a > n - 4 THEN 0 ELSE 1]
Raw == {Cfg(q[1], q[2], q[3], q[4], [a \in 1..12 |-> IF a > 8 THEN 0 ELSE One(12, q[5])[a]], [a \in 1..12 |-> a # q[6]]) : q \in OLat \X ILat \X ILons \X Wets8 \X (IF Deep THEN 1..8 ELSE {1, 6}) \X {0, 3}}
MCCfgs == {c \in Raw : TRUE}
Sc(c) == Cardinality({k \in 1..8 : c.wet[k] /\ k % 3 # 0}) + (2 * Cardinality({k \in 1..8 : c.wet[k] /\ k % 2 = 0})) + c.data[1][1]
GENCfgs == {c \in Raw : Sc(c) % 5 = 0}
VARIABLE told
Emit == (Done \/ pc = "refused") /\ ~told /\ PrintT("CASE|" \o ToJson([N |-> C.N, S |-> C.S, inp |-> C.inp, out |-> C.out, wet |-> C.wet, data |-> C.data, valid |-> C.valid])) /\ told' = TRUE /\ UNCHANGED vars
GENInit == Init /\ told = FALSE
GENNext == (Next /\ UNCHANGED told) \/ Emit
MCInit == Init /\ told = FALSE
MCNext == Next /\ UNCHANGED told
=============================================================================
