---------------------------- MODULE MC_Quick ----------------------------
EXTENDS Quick, Json
CONSTANTS Deep
Vals(k) == CASE k = "depth" -> {-1, 0, 1, 5} [] k = "area" -> {0, 7999, 8000} [] k = "land" -> {0, 7600, 8000} [] OTHER -> {0}
Seqs(S, m) == [1..m -> S]
Base(k) == {[kind |-> k, nx |-> <<a>>, ny |-> <<b>>, v |-> <<v>>, level |-> l, pieces |-> <<>>] : <<a, b>> \in {<<2, 1>>}, v \in Seqs(Vals(k), 2), l \in (IF k = "depth" THEN {0, 1, -1} ELSE {0})}
Two(k) == {[kind |-> k, nx |-> <<2, 1>>, ny |-> <<1, 2>>, v |-> <<v, w>>, level |-> 0, pieces |-> <<>>] : v \in Seqs(Vals(k), 2), w \in Seqs(Vals(k), 2)}
Ps == {<<>>} \cup UNION {[1..m -> {1, 2} \X {1, 2} \X {3000, 5000, 8000}] : m \in (IF Deep THEN 1..3 ELSE 1..2)}
Cpl == {[kind |-> "coupled", nx |-> <<2, 1>>, ny |-> <<1, 2>>, v |-> <<<<0, 0>>, <<0, 0>>>>, level |-> 0, pieces |-> p] : p \in Ps}
MCCfgs == Cpl \cup UNION {Base(k) \cup Two(k) : k \in {"depth", "area", "land"}}
Sc(c) == MapThenSumSet(LAMBDA t : MapThenSumSet(LAMBDA i : (c.v[t][i] \div (IF c.kind = "depth" THEN 1 ELSE 100)) * ((3 * i) + t), 1..Len(c.v[t])), 1..Len(c.v)) + c.level + (7 * Len(c.pieces)) + (IF c.pieces = <<>> THEN 0 ELSE (c.pieces[1][3] \div 1000) + c.pieces[Len(c.pieces)][2])
GENCfgs == {c \in MCCfgs : Sc(c) % 4 = 0}
VARIABLE told
Emit == pc \in {"done", "refused"} /\ ~told /\ PrintT("CASE|" \o ToJson([kind |-> C.kind, nx |-> C.nx, ny |-> C.ny, v |-> C.v, level |-> C.level, pieces |-> C.pieces])) /\ told' = TRUE /\ UNCHANGED vars
GENInit == Init /\ told = FALSE
GENNext == (Next /\ UNCHANGED told) \/ Emit
MCInit == Init /\ told = FALSE
MCNext == Next /\ UNCHANGED told
=========================================================================
