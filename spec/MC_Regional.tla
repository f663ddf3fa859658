--------------------------- MODULE MC_Regional ---------------------------
EXTENDS Regional, Json
CONSTANTS Deep
Up(m, k) == {s \in [1..k -> 0..(m + 1)] : \A i \in 1..(k - 1) : s[i] < s[i + 1]}
Axes(m) == UNION {Up(m, k) : k \in 1..(IF Deep THEN 3 ELSE 2)} \cup {[i \in 1..m |-> i]}
MCCfgs == {[W |-> w, H |-> h, ntiles |-> nt, tile |-> t, xs |-> x, ys |-> y] : <<w, h>> \in {<<2, 3>>, <<4, 2>>, <<3, 3>>}, <<nt, t>> \in {<<1, 1>>, <<3, 2>>, <<2, 3>>}, x \in Axes(4), y \in Axes(3)}
Fit(c) == Within(c.xs, c.W) /\ Within(c.ys, c.H)
GENCfgs == {c \in MCCfgs : Fit(c) \/ ((c.xs[1] * 3) + c.ys[1] + Len(c.ys) + (2 * c.xs[Len(c.xs)]) + c.ys[Len(c.ys)]) % 13 = 0}
VARIABLE told
Emit == pc \in {"done", "refused"} /\ ~told /\ PrintT("CASE|" \o ToJson([W |-> C.W, H |-> C.H, ntiles |-> C.ntiles, tile |-> C.tile, xs |-> C.xs, ys |-> C.ys])) /\ told' = TRUE /\ UNCHANGED vars
GENInit == Init /\ told = FALSE
GENNext == (Next /\ UNCHANGED told) \/ Emit
MCInit == Init /\ told = FALSE
MCNext == Next /\ UNCHANGED told
==========================================================================
