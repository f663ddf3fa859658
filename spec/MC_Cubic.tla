---------------------------- MODULE MC_Cubic ----------------------------
EXTENDS Cubic, Json
CONSTANTS Deep
\* four input cells cut into pieces for three output cells; slopes and holes
Cut == {<<2, 1, 1>>, <<1, 0, 3>>, <<4, 0, 0>>, <<0, 2, 2>>}
PieceSet(c, z) == [o \in 1..3 |-> [c |-> c, o |-> o, a |-> z[o], x |-> IF z = <<2, 1, 1>> THEN (IF o = 1 THEN -1 ELSE IF o = 2 THEN 1 ELSE 1) ELSE IF z = <<1, 0, 3>> THEN (IF o = 1 THEN -3 ELSE 1) ELSE IF z = <<0, 2, 2>> THEN (IF o = 2 THEN -1 ELSE 1) ELSE 0]]
All(z1, z2) == SelectSeq(PieceSet(1, z1) \o PieceSet(5, z2), LAMBDA p : p.a > 0)
Mk(n, z1, z2, d1, d2, s1, s2, v, ord, any) == [n |-> n, no |-> 3, pieces |-> All(z1, z2), data |-> [c \in 1..(6 * n * n) |-> IF c = 1 THEN d1 ELSE IF c = 5 THEN d2 ELSE 7],
    slope |-> [c \in 1..(6 * n * n) |-> IF c = 1 THEN s1 ELSE s2], valid |-> [c \in 1..(6 * n * n) |-> c # v], order |-> ord, any |-> any]
MCCfgs == {Mk(q[1], q[2], q[3], q[4], 4, q[5], -1, q[6], q[7], TRUE) : q \in (IF Deep THEN {1, 2, 3, 4, 5} ELSE {1, 2, 4}) \X Cut \X Cut \X (IF Deep THEN {-2, 0, 9} ELSE {-2, 9}) \X {0, 3} \X {0, 5} \X {1, 2}}
\* sizes and kinds of runs
Meth == {"conserve_order1", "conserve_order2", "conserve_order2_monotonic"}
GENCfgs == {[n |-> q[1], method |-> q[2], to |-> q[3], holes |-> q[4], np |-> q[5], saved |-> q[6], no |-> 0, pieces |-> <<>>] :
            q \in {2, 4} \X Meth \X {"global", "region", "same", "cube", "tile"} \X {FALSE, TRUE} \X {1, 3} \X {FALSE, TRUE}}
VARIABLE told
Emit == pc = "done" /\ ~told /\ PrintT("CASE|" \o ToJson([n |-> C.n, method |-> C.method, to |-> C.to, holes |-> C.holes, np |-> C.np, saved |-> C.saved])) /\ told' = TRUE /\ UNCHANGED vars
GENInit == Init /\ told = FALSE
GENNext == (Next /\ UNCHANGED told) \/ Emit
MCInit == Init /\ told = FALSE
MCNext == Next /\ UNCHANGED told
=========================================================================
