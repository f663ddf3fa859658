----------------------------- MODULE MC_Coupler -----------------------------
EXTENDS Coupler, Json
CONSTANTS Deep
N0 == 8
S0 == 2
Lons == {<<0, 2, 4, 6, 8>>, <<0, 1, 3, 5, 6, 8>>, <<3, 5, 7, 9, 11>>}
Some == {<<2, 4, 5>>, <<6, 7, 9>>}
Lats == {<<-2, 0, 2>>, <<-2, -1, 1, 2>>}
Part == {<<-1, 0, 2>>, <<0, 1>>, <<-2, 2>>}
Globes == {<<[lon |-> a, lat |-> b]>> : <<a, b>> \in Lons \X Lats} \cup {<<[lon |-> <<0, 2, 3>>, lat |-> b], [lon |-> <<3, 4, 6, 8>>, lat |-> c]>> : <<b, c>> \in Lats \X {<<-2, 0, 1, 2>>}}
Parts == {<<[lon |-> a, lat |-> b]>> : <<a, b>> \in Some \X (Lats \cup Part)} \cup {<<[lon |-> a, lat |-> b]>> : <<a, b>> \in Lons \X Part}
Full1(g) == MapThenSumSet(LAMBDA n : (g[n].lon[Len(g[n].lon)] - g[n].lon[1]) * (g[n].lat[Len(g[n].lat)] - g[n].lat[1]), 1..Len(g)) = N0 * 2 * S0
OFull(g) == Full1(g) \/ (Len(g) = 1 /\ g[1].lon[Len(g[1].lon)] - g[1].lon[1] = N0 /\ g[1].lat[Len(g[1].lat)] = S0)
Frac(p, g) == [n \in 1..Len(g) |-> [c \in 1..((Len(g[n].lon) - 1) * (Len(g[n].lat) - 1)) |-> CASE p = 0 -> 10 * ((c + n) % 2) [] p = 1 -> ((c * 3) + n) % 11 [] p = 2 -> 10]]
\* grids for the four components
Atms == Globes \cup {<<[lon |-> <<2, 4, 5>>, lat |-> <<-1, 0, 2>>]>>}
Lnds == IF Deep THEN Globes \cup {g \in Parts : g[1].lat = <<-2, 2>>} ELSE {g \in Globes : g[1].lon # <<0, 2, 4, 6, 8>>}
Ocns == Globes \cup (IF Deep THEN Parts ELSE {g \in Parts : g[1].lat = <<-1, 0, 2>>})
Mk(a, l, o, p, np, w, same, nest) ==
  [N |-> N0, S |-> S0, atm |-> a, lnd |-> IF same THEN a ELSE l, ocn |-> o, frac |-> Frac(p, o), same |-> same, np |-> np, wav |-> w, thr |-> 0, nest |-> nest,
   full |-> OFull(o) /\ Full1(IF same THEN a ELSE l), over |-> IF nest > 0 THEN TRUE ELSE Full1(a), wfull |-> w # <<>> /\ Full1(w), F |-> <<1, 2, 3, 4, 5>>, H |-> <<1, 2, 3, 4, 5>>]
Pick(a, l, o) == Deep \/ (Len(a[1].lon) + (2 * Len(l[1].lon)) + Len(o[1].lon) + Len(a[1].lat) + Len(l[1].lat) + Len(o[1].lat) + a[1].lon[1] + (2 * l[1].lon[1])) % 4 = 0
Nest == <<[lon |-> <<0, 2, 4, 6, 8>>, lat |-> <<-2, 0, 2>>], [lon |-> <<2, 3, 4, 5, 6>>, lat |-> <<0, 1, 2>>]>>
MCCfgs == {Mk(q[1], q[2], q[3], q[4], 1 + (Len(q[3][1].lon) % 2), IF Len(q[1]) = 2 THEN q[1] ELSE <<>>, FALSE, 0) : q \in {q \in Atms \X Lnds \X Ocns \X {0, 1} : Pick(q[1], q[2], q[3])}} \cup
          {Mk(q[1], <<>>, q[2], q[3], 2, IF Len(q[2]) = 1 THEN q[2] ELSE <<>>, TRUE, 0) : q \in Atms \X Ocns \X {0, 1, 2}} \cup
          {Mk(Nest, q[1], q[2], 1, 1, <<>>, FALSE, 2) : q \in Lnds \X Ocns}
\* schedules: two or three processes on a small configuration, in every order
Tiny == {<<[lon |-> <<0, 2, 4, 6, 8>>, lat |-> <<-2, 2>>]>>, <<[lon |-> <<1, 3, 5, 7, 9>>, lat |-> <<-2, 2>>]>>}
SCHCfgs == {Mk(q[1], q[2], q[3], 1, q[4], <<>>, FALSE, 0) : q \in Tiny \X Tiny \X Tiny \X (IF Deep THEN {2, 3, 4} ELSE {2, 3})}
VARIABLE told
GENCfgs == {c \in MCCfgs : (Len(c.frac[1]) + Len(c.lnd[1].lon) + Len(c.atm[1].lat)) % 3 = 0}
Emit == Done /\ ~told /\ PrintT("CASE|" \o ToJson([N |-> C.N, S |-> C.S, atm |-> C.atm, lnd |-> C.lnd, ocn |-> C.ocn, frac |-> C.frac, same |-> C.same, wav |-> C.wav, np |-> C.np, nest |-> C.nest])) /\ told' = TRUE /\ UNCHANGED vars
GENInit == Init /\ told = FALSE
GENNext == (Next /\ UNCHANGED told) \/ Emit
MCInit == Init /\ told = FALSE
MCNext == Next /\ UNCHANGED told
=============================================================================
