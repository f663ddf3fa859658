---------------------------- MODULE MC_Restarts ----------------------------
EXTENDS Restarts, Json
CONSTANTS NS, NI, Emit
Kinds == {"land", "ice", "mpp"}
St == <<"a.res.nc", "b.nc", "c.res">>
Pc == << <<"a.res.nc.0000", "a.res.nc.0001">>, <<"b.nc.0000", "b.nc.0001">>, <<"c.res.0000">> >>
OneSet == {[kind |-> k, sound |-> s, outexists |-> x] : k \in Kinds, s \in BOOLEAN, x \in BOOLEAN}
RECURSIVE Pieces(_)
Pieces(k) == IF k = 0 THEN <<>> ELSE Pieces(k - 1) \o Pc[k]
RECURSIVE Outs(_, _)
Outs(ss, k) == IF k > Len(ss) THEN <<>> ELSE (IF ss[k].outexists THEN <<St[k]>> ELSE <<>>) \o Outs(ss, k + 1)
Rest(n) == { [op |-> "restarts", dry |-> d, remove |-> r, ins |-> <<>>, outexists |-> FALSE,
             sets |-> [k \in 1..n |-> [stem |-> St[k], pieces |-> Pc[k], kind |-> ss[k].kind, sound |-> ss[k].sound, outexists |-> ss[k].outexists]],
             names |-> Pieces(n) \o Outs(ss, 1) \o <<"d.txt.0000">>] : d \in BOOLEAN, r \in BOOLEAN, ss \in [1..n -> OneSet] }
In3 == [here : {TRUE}, nc : {TRUE}, major : {0}, minor : {0, 1}, nfs : {2, 3}, rec : {<<>>, <<1, 2>>}]
In2 == [here : {TRUE, FALSE}, nc : {TRUE, FALSE}, major : {0, 1}, minor : {-1, 1}, nfs : {-1, 2}, rec : {<<>>, <<1, 2>>}]
In == [here : {TRUE, FALSE}, nc : {TRUE, FALSE}, major : {-1, 0, 1}, minor : {-1, 0, 1}, nfs : {-1, 1, 2, 3}, rec : {<<>>, <<1>>, <<1, 2>>}]
Ices == { [op |-> "iceberg", dry |-> FALSE, remove |-> FALSE, ins |-> <<a>> \o <<b>> \o <<c>>, outexists |-> x, sets |-> <<>>, names |-> <<>>] :
            a \in In3, b \in In3, c \in In3, x \in BOOLEAN } \cup
        { [op |-> "iceberg", dry |-> FALSE, remove |-> FALSE, ins |-> <<a>> \o <<b>>, outexists |-> x, sets |-> <<>>, names |-> <<>>] :
            a \in {i \in In2 : i.nfs >= NI}, b \in In2, x \in BOOLEAN } \cup
        { [op |-> "iceberg", dry |-> FALSE, remove |-> FALSE, ins |-> <<a>>, outexists |-> FALSE, sets |-> <<>>, names |-> <<>>] : a \in In }
Chk == { [op |-> "check", dry |-> FALSE, remove |-> FALSE, ins |-> <<a>>, outexists |-> FALSE, sets |-> <<>>, names |-> <<>>] : a \in In }
MCCfgs == UNION {Rest(n) : n \in 0..NS} \cup Ices \cup Chk
ASSUME Emit => \A c \in (UNION {Rest(n) : n \in 1..NS}) \cup Chk : PrintT("CASE|" \o ToJson([op |-> c.op, dry |-> c.dry, remove |-> c.remove, sets |-> c.sets, ins |-> c.ins]))
GenNext == FALSE /\ UNCHANGED vars
=============================================================================
