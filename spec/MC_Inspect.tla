---------------------------- MODULE MC_Inspect ----------------------------
EXTENDS Inspect, Json
CONSTANTS Emit
Names == {"a", "T1", "_T1", "x_T2", "z_NITEMS", "NITEMS", "T1_a"}
VarSet == [n : Names, char : BOOLEAN, rec : BOOLEAN, rank : {0, 1, 4}, atts : {<<>>, <<"u">>}]
File(vs) == [here |-> TRUE, nc |-> TRUE, gatts |-> <<"t", "u">>, vars |-> vs]
RSets == { <<>>, <<0>>, <<1>>, <<2, 3>>, <<4>>, <<0, 1, 2, 3, 4>> }
Q0 == [g |-> "", v |-> "", a |-> ""]
Lists == { [op |-> "list", files |-> <<File(<<x>>)>>, s |-> s, t |-> t, ranks |-> r, q |-> Q0] : x \in VarSet, s \in BOOLEAN, t \in BOOLEAN, r \in RSets }
Ex == { [op |-> "exists", files |-> <<[File(<<x>>) EXCEPT !.here = h, !.nc = m]>>, s |-> FALSE, t |-> FALSE, ranks |-> <<>>, q |-> [g |-> gg, v |-> vv, a |-> aa]] :
        x \in {y \in VarSet : y.rank < 2}, h \in BOOLEAN, m \in BOOLEAN, gg \in {"", "t", "w"}, vv \in {"", "a", "b"}, aa \in {"", "u", "w"} }
MCCfgs == Lists \cup Ex
ASSUME Emit => \A r \in RSets : \A s \in BOOLEAN : \A t \in BOOLEAN : PrintT("CASE|" \o ToJson([s |-> s, t |-> t, ranks |-> r]))
GenNext == FALSE /\ UNCHANGED vars
=============================================================================
