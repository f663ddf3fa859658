---------------------------- MODULE MC_Topog ----------------------------
EXTENDS Topog, Json
CONSTANTS Deep
M == 256
V == <<0, 4 * M, 10 * M, (10 * M) + 16, 12 * M, 16 * M, 22 * M, 39 * M, 60 * M>>
Zs == <<10 * M, 20 * M, 40 * M>>
Pat(a, b, k) == IF k = 9 THEN 2 + ((a + b) % 8) ELSE 1 + (((a * k * k) + (b * k) + (a * b) + (k \div 2)) % 9)
\* mostly sea
Pat2(a, b, k) == IF (a + (k * b)) % 5 = 0 THEN 1 ELSE 2 + (((a * k * k) + (b * k) + a) % 8)
Deps == {[k \in 1..9 |-> V[Pat(a, b, k)]] : a \in 0..(IF Deep THEN 8 ELSE 3), b \in 0..8} \cup {[k \in 1..9 |-> V[Pat2(a, b, k)]] : a \in 0..(IF Deep THEN 8 ELSE 3), b \in 0..8}
Base == [ni |-> 3, nj |-> 3, type |-> "copy", d |-> <<>>, zw |-> Zs, passes |-> 0, deepen |-> FALSE, row |-> FALSE, full |-> FALSE, flat |-> FALSE, cycx |-> FALSE, cycy |-> FALSE, tri |-> FALSE,
   fill |-> TRUE, keep |-> FALSE, adjust |-> TRUE, opens |-> TRUE, frac |-> 8, mt |-> 256, kmin |-> 2, few |-> "", depth |-> 0, gap |-> <<1, 2, 1, 2>>, N |-> 8, src |-> [lon |-> <<0, 1>>, lat |-> <<0, 1>>], dst |-> [lon |-> <<0, 1>>, lat |-> <<0, 1>>]]
Opts == <<Base, [Base EXCEPT !.cycx = TRUE], [Base EXCEPT !.cycx = TRUE, !.cycy = TRUE, !.opens = FALSE], [Base EXCEPT !.tri = TRUE, !.cycx = TRUE, !.few = "deepen"],
  [Base EXCEPT !.keep = TRUE, !.few = "fill"], [Base EXCEPT !.passes = 2, !.zw = <<>>], [Base EXCEPT !.passes = 1, !.deepen = TRUE, !.cycy = TRUE, !.kmin = 1], [Base EXCEPT !.full = TRUE, !.opens = FALSE, !.kmin = 3],
  [Base EXCEPT !.flat = TRUE, !.row = TRUE], [Base EXCEPT !.adjust = FALSE, !.mt = 0, !.row = TRUE], [Base EXCEPT !.fill = FALSE, !.frac = 20, !.few = "round"], [Base EXCEPT !.frac = 0, !.opens = FALSE, !.cycx = TRUE, !.kmin = 1],
  [Base EXCEPT !.kmin = 4], [Base EXCEPT !.passes = 1, !.row = TRUE, !.keep = TRUE, !.cycx = TRUE, !.mt = 5120]>>
Copies == {[Opts[o] EXCEPT !.d = d] : o \in 1..Len(Opts), d \in Deps}
SLons == {<<0, 2, 4, 6, 8>>, <<-3, -1, 1, 3, 5>>, <<1, 2, 3, 4, 5>>}
SLats == {<<-2, 0, 2>>, <<-4, 0, 4>>}
Means == {[Base EXCEPT !.type = "mean", !.zw = <<>>, !.ni = 4, !.nj = 3, !.passes = p, !.src = [lon |-> a, lat |-> b], !.dst = [lon |-> c, lat |-> <<-3, -1, 1, 4>>], !.d = [k \in 1..8 |-> V[Pat(x, 3, k)]]] :
   a \in SLons, b \in SLats, c \in {<<0, 1, 3, 4, 6>>, <<-2, 0, 2, 4, 6>>}, p \in {0, 1}, x \in 0..(IF Deep THEN 8 ELSE 4)}
Fixed == {[Base EXCEPT !.type = t, !.zw = <<>>, !.depth = 100 * M, !.ni = a, !.nj = b, !.gap = g] : t \in {"basin", "channel"}, a \in {1, 3}, b \in {2, 4, 5}, g \in {<<1, 2, 1, 2>>, <<2, 3, 1, 4>>, <<1, 1, 3, 4>>}}
MCCfgs == Copies \cup Means \cup Fixed
Sc(c) == MapThenSumSet(LAMBDA k : (c.d[k] \div 16) * k, 1..Len(c.d)) + c.kmin + c.frac
GENCfgs == {c \in MCCfgs : Sc(c) % 3 = 0 /\ ~c.tri /\ (c.passes < 2 \/ \A k \in 1..Len(c.d) : c.d[k] % M = 0)} \* a folded grid has an even number of columns; 256ths stay exact
VARIABLE told
Emit == pc \in {"done", "refused"} /\ ~told /\ PrintT("CASE|" \o ToJson(C)) /\ told' = TRUE /\ UNCHANGED vars
GENInit == Init /\ told = FALSE
GENNext == (Next /\ UNCHANGED told) \/ Emit
MCInit == Init /\ told = FALSE
MCNext == Next /\ UNCHANGED told
=========================================================================
