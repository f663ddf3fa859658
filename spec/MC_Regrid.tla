----------------------------- MODULE MC_Regrid -----------------------------
EXTENDS Regrid, Json
CONSTANTS Deep
N0 == 8
S0 == 2
\* one way to cut an interval
Lons == {<<0, 2, 4, 6, 8>>, <<0, 1, 3, 5, 6, 8>>, <<1, 3, 5, 7, 9>>, <<4, 6, 8, 10>>, <<5, 6, 8, 9>>, <<1, 2>>}
Lats == {<<-2, 2>>, <<-2, 0, 2>>, <<-2, -1, 1, 2>>, <<-1, 0, 2>>, <<1, 2>>}
One == {<<[lon |-> a, lat |-> b]>> : <<a, b>> \in Lons \X Lats}
Two == {<<[lon |-> <<0, 1, 3>>, lat |-> b], [lon |-> <<3, 4, 6, 8>>, lat |-> c]>> : <<b, c>> \in Lats \X Lats} \cup
       {<<[lon |-> a, lat |-> <<-2, 0>>], [lon |-> b, lat |-> <<0, 1, 2>>]>> : <<a, b>> \in Lons \X Lons}
Full1(g) == Sum(1..Len(g), LAMBDA n : Sum(1..NCell(g[n]), LAMBDA c : Area(g[n], c))) = N0 * 2 * S0
X(p, g) == [k \in 1..4 |-> [n \in 1..Len(g) |-> [c \in 1..NCell(g[n]) |-> LET h == ((c * 7) + (p * 3) + (k * 5) + (n * 2)) % 11 IN IF p % 2 = 0 /\ h = 4 THEN Miss ELSE h - 3]]]
XNoMiss(p, g) == [k \in 1..4 |-> [n \in 1..Len(g) |-> [c \in 1..NCell(g[n]) |-> (((c * 7) + (p * 3) + (k * 5) + (n * 2)) % 11) - 3]]]
W(p, g) == [n \in 1..Len(g) |-> [c \in 1..NCell(g[n]) |-> ((c + p) % 3)]]
Mk(i, o, p, kind, wt, tg) ==
  [N |-> N0, S |-> S0, tin |-> i, tout |-> o, full |-> Full1(i), over |-> Full1(o), wt |-> IF wt THEN W(p, i) ELSE <<>>, target |-> tg, nz |-> 2, k0 |-> 1 + (p % 2), k1 |-> 2, l0 |-> 1, l1 |-> 2,
   remap |-> TRUE, runs |-> IF p = 1 THEN 2 ELSE 1,
   fields |-> <<[n |-> "f", T |-> p > 1, Z |-> p # 3, nn |-> IF p = 3 THEN 2 ELSE 1, kind |-> kind, x |-> IF kind = "sum" THEN XNoMiss(p, i) ELSE X(p, i), mT |-> FALSE, vol |-> p = 3, m |-> <<W(p + 1, i)>>]>>]
Grids == IF Deep THEN One \cup Two ELSE {g \in One \cup Two : (Len(g) = 1 /\ g[1].lat \in {<<-2, 0, 2>>, <<-1, 0, 2>>}) \/ (Len(g) = 2 /\ (g[1].lat = <<-2, 0>> \/ g[1].lat = <<-2, 2>>) /\ g[1].lon \in {<<0, 1, 3>>, <<1, 3, 5, 7, 9>>})}
Fuls == IF Deep THEN {p \in Grids \X Grids : p[1][1].lon # <<1, 2>>} ELSE {p \in Grids \X Grids : (Len(p[1]) + Len(p[2]) + Len(p[1][1].lon) + Len(p[2][1].lon)) % 2 = 0}
MCCfgs == {Mk(g[1], g[2], 1, "mean", FALSE, FALSE) : g \in Fuls} \cup
          {Mk(g[1], g[2], 2, "mean", FALSE, FALSE) : g \in Fuls} \cup
          {Mk(g[1], g[2], 3, "sum", FALSE, FALSE) : g \in Fuls} \cup
          (IF Deep THEN {} ELSE {Mk(g[1], g[2], 2, "meas", FALSE, TRUE) : g \in Fuls}) \cup
          {Mk(g[1], g[2], 1, "mean", TRUE, FALSE) : g \in Fuls}
\* behaviours to replay: the grids and the kind of field
VARIABLE told
GENCfgs == {Mk(g[1], g[2], 2, k, w, FALSE) : <<g, k, w>> \in Fuls \X {"mean", "sum"} \X {FALSE}}
Emit == pc = "done" /\ ~told /\ PrintT("CASE|" \o ToJson([tin |-> C.tin, tout |-> C.tout, kind |-> C.fields[1].kind])) /\ told' = TRUE /\ UNCHANGED vars
GENInit == Init /\ told = FALSE
GENNext == (Next /\ UNCHANGED told) \/ Emit
MCInit == Init /\ told = FALSE
MCNext == Next /\ UNCHANGED told
=============================================================================
