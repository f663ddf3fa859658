----------------------------- MODULE MC_Hgrid -----------------------------
EXTENDS Hgrid, Json
CONSTANTS Deep
Sizes == IF Deep THEN {1, 2, 3, 4, 6, 8, 10} ELSE {1, 2, 4, 6, 8}
One(n) == {[parent |-> q[1], r |-> q[2], is |-> q[3], ie |-> q[4], js |-> q[5], je |-> q[6]] : q \in {q \in {1, 3, 6} \X {1, 2, 3} \X (1..n) \X (1..n) \X {1, 3, 5} \X {2, 4, 6} :
   q[3] < q[4] /\ q[5] < q[6] /\ q[6] <= n /\ (Deep \/ (q[3] + q[4] + q[5] + q[1] + q[2]) % 4 = 2)}}
Two == {<<a, [parent |-> q[1], r |-> q[2], is |-> q[3], ie |-> q[4], js |-> 3, je |-> q[5]]>> : <<a, q>> \in {x \in One(8) : x.is \in {3} /\ x.ie \in {4, 6} /\ x.js = 3 /\ x.je \in {4, 6}} \X ({2, 7} \X {2, 3} \X {3} \X {4, 6} \X {4, 6})}
MCCfgs == {[n |-> n, nests |-> <<>>, halo |-> 0, ring |-> b] : <<n, b>> \in Sizes \X BOOLEAN} \cup
          {[n |-> 6, nests |-> <<a>>, halo |-> h, ring |-> FALSE] : <<a, h>> \in One(6) \X {1, 2}} \cup
          {[n |-> 8, nests |-> a, halo |-> 1, ring |-> FALSE] : a \in Two}
GENCfgs == {c \in MCCfgs : Len(c.nests) # 1 \/ (c.nests[1].is + c.nests[1].ie + c.nests[1].r + c.halo) % 3 = 0}
VARIABLE told
Emit == Done /\ ~told /\ PrintT("CASE|" \o ToJson(C)) /\ told' = TRUE /\ UNCHANGED vars
GENInit == Init /\ told = FALSE
GENNext == (Next /\ UNCHANGED told) \/ Emit
MCInit == Init /\ told = FALSE
MCNext == Next /\ UNCHANGED told
=============================================================================
