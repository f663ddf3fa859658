---------------------------- MODULE MC_TimeAvg ----------------------------
EXTENDS TimeAvg, Json
CONSTANTS Emit, MaxRec
Vr(rec, m, i) == [n |-> "v", rec |-> rec, miss |-> m, int |-> i, size |-> 1]
Times(n) == [k \in 1..n |-> 2 * k]
Bs(n, gap) == [k \in 1..n |-> << (k - 1) * (2 + gap) + (IF k = 1 THEN 0 ELSE 1), (k - 1) * (2 + gap) + 3 >>]
Bss == { <<a, g>> : a \in {0, 1, 2}, g \in {0, 5} }
\* intervals of lengths 2 and 2 + a, apart by g
Ints(n, p) == [k \in 1..n |-> LET lo == (k - 1) * (2 + p[2]) + (IF k > 2 THEN p[1] ELSE 0) IN << lo, lo + 2 + (IF k = 2 THEN p[1] ELSE 0) >>]
Xs(n) == [1..n -> {Miss, 1, 4}]
File1(n, b, p, x) == [t |-> Times(n), b |-> IF b = "none" THEN <<>> ELSE Ints(n, p), x |-> << [k \in 1..n |-> <<x[k]>>] >>]
Mk(fs, b, m, fr, rec, ms) == [vars |-> <<Vr(rec, ms, FALSE)>>, files |-> fs, bounds |-> b, mid |-> m, addb |-> FALSE, frac |-> fr, here |-> TRUE]
MCCfgs == UNION { { Mk(<<File1(n, b, p, x)>>, b, m, fr, TRUE, ms) : b \in {"bounds", "climatology", "none"}, p \in Bss, x \in Xs(n), m \in BOOLEAN, fr \in {0, 50, 100}, ms \in BOOLEAN } : n \in 1..MaxRec } \cup
          UNION { { Mk(<<File1(n, "bounds", <<1, 0>>, x), File1(q, "bounds", <<1, 0>>, y)>>, "bounds", TRUE, 0, TRUE, TRUE) : x \in Xs(n), y \in Xs(q) } : n \in 1..2, q \in 1..2 }
ASSUME Emit => \A nf \in 1..3 : \A b \in {"bounds", "climatology", "none"} : \A m \in BOOLEAN : \A fr \in {0, 50, 100} : \A cl \in BOOLEAN : \A nr \in {<<1>>, <<3>>, <<1, 3>>, <<2, 1>>} :
   PrintT("CASE|" \o ToJson([nf |-> nf, bounds |-> b, mid |-> m, frac |-> fr, climo |-> cl, nr |-> nr]))
GenNext == FALSE /\ UNCHANGED vars
=============================================================================
