---------------------------- MODULE MC_Lonlat ----------------------------
EXTENDS Lonlat, Json
CONSTANTS Deep, Kind
Centers == {"none", "t_cell", "c_cell"}
\* one axis: <<bounds, cells, resolutions>>
Bx == {<<0, 360>>, <<-20, 40, 100>>, <<0, 30, 90>>, <<10, 20, 60, 70>>}
By == {<<-30, 30>>, <<-80, -20, 10>>, <<-60, 0, 20, 60>>}
Ns(b, S) == {s \in UNION {[1..k -> S] : k \in 1..3} : Len(s) = Len(b) - 1}
New(B, S) == UNION {{<<b, n, <<>>>> : n \in Ns(b, S)} : b \in B}
\* resolutions with whole numbers of cells, from sizes the cosine table covers
Olds == {<<<<0, 12>>, <<>>, <<2, 2>>>>, <<<<0, 18>>, <<>>, <<2, 4>>>>, <<<<0, 6, 24>>, <<>>, <<3, 3, 9>>>>, <<<<-10, -4, 5>>, <<>>, <<2, 2, 4>>>>, <<<<0, 10>>, <<>>, <<3, 2>>>>,
         <<<<10, 22, 40, 44>>, <<>>, <<4, 4, 2, 2>>>>, <<<<0, 7, 14>>, <<>>, <<7, 7, 7>>>>, <<<<0, 9>>, <<>>, <<1, 2>>>>}
Half == {2, 4, 6}
Odd == {1, 2, 3, 5}
Base == [type |-> "regular", xb |-> <<>>, xn |-> <<>>, xd |-> <<>>, xnb |-> 0, yb |-> <<>>, yn |-> <<>>, yd |-> <<>>, ynb |-> 0, center |-> "none",
         join |-> 65, gca |-> FALSE, flat |-> 30, sdx |-> 0, sdy |-> 0, xt |-> <<>>, yt |-> <<>>, stretch |-> 1]
With(t, x, y, c, g) == [Base EXCEPT !.type = t, !.xb = x[1], !.xn = x[2], !.xd = x[3], !.xnb = Len(x[1]), !.yb = y[1], !.yn = y[2], !.yd = y[3], !.ynb = Len(y[1]), !.center = c, !.gca = g]
Few(S, m) == S    \* all of them
XA == New(Bx, IF Deep THEN {1, 2, 3, 4, 6} ELSE {2, 3, 4})
Yc == {<<<<-30, 30>>, <<2>>, <<>>>>, <<<<-60, 0, 20>>, <<4, 2>>, <<>>>>, <<<<-60, 0, 20>>, <<4, 3>>, <<>>>>}
Xc == {<<<<0, 360>>, <<8>>, <<>>>>}
Horiz == {With(t, x, y, c, FALSE) : <<t, x, y, c>> \in {"regular", "fplane"} \X XA \X Yc \X Centers}
    \cup {With(t, x, y, c, FALSE) : <<t, x, y, c>> \in {"regular", "betaplane"} \X Xc \X New(By, {2, 4, 6}) \X Centers}
    \cup {With("regular", x, y, c, g) : <<x, y, c, g>> \in Olds \X Olds \X Centers \X {FALSE}}
    \cup {[With("tripolar", x, y, c, g) EXCEPT !.join = j] : <<x, y, c, g, j>> \in {<<<<0, 360>>, <<8>>, <<>>>>, <<<<-280, 80>>, <<12>>, <<>>>>, <<<<0, 120, 360>>, <<4, 4>>, <<>>>>} \X
                {<<<<-60, 30, 90>>, <<4, 6>>, <<>>>>, <<<<-80, 0, 50, 90>>, <<4, 2, 6>>, <<>>>>, <<<<0, 90>>, <<6>>, <<>>>>} \X {"none", "c_cell"} \X BOOLEAN \X {60, 65, 75}}
    \cup {[Base EXCEPT !.type = "cartesian", !.xb = <<0, 30>>, !.xn = <<n>>, !.yb = <<-10, 10>>, !.yn = <<m>>, !.sdx = 1000, !.sdy = q] : <<n, m, q>> \in (1..4) \X (1..4) \X {0, 500}}
    \cup {[Base EXCEPT !.type = "spectral", !.xn = <<n>>, !.yn = <<m>>, !.gca = g] : <<n, m, g>> \in {4, 8, 12} \X {4, 6, 8, 12} \X BOOLEAN}
    \cup {[With("regular", x, y, c, FALSE) EXCEPT !.xnb = k] : <<x, y, c, k>> \in XA \X {<<<<-30, 30>>, <<2>>, <<>>>>} \X {"none", "t-cell"} \X {1, 2, 3}}
Vert == {With("vertical", x, <<<<>>, <<>>, <<>>>>, c, FALSE) : <<x, c>> \in (New({<<0, 100>>, <<0, 20, 100>>, <<5, 10, 200>>, <<0, 10, 30, 400>>}, IF Deep THEN 1..8 ELSE {2, 3, 4, 6}) \cup Olds) \X Centers}
    \cup {[With("vertical", x, <<<<>>, <<>>, <<>>>>, c, FALSE) EXCEPT !.stretch = s] : <<x, c, s>> \in Olds \X Centers \X {2, 3}}
    \cup {[With("vertical", x, <<<<>>, <<>>, <<>>>>, "none", FALSE) EXCEPT !.xnb = k] : <<x, k>> \in (New({<<0, 20, 100>>}, {2, 4}) \cup Olds) \X {1, 2, 4}}
Covered(b, d, c, st) == Len(d) > 0 /\ Len(d) = Len(b) => (st > 1 => StretchN(b, d, st) \in {1, 2, 3, 4, 6, 12}) /\ \A k \in 1..(Len(b) - (IF st = 1 THEN 1 ELSE 2)) : Cells(b, d)[k] \in (IF c = "t_cell" THEN {1, 2, 3, 6} ELSE {1, 2, 3, 4, 6, 12})
MCAll == IF Kind = "v" THEN Vert ELSE Horiz
RECURSIVE S1(_)
S1(s) == IF s = <<>> THEN 0 ELSE S1(Tail(s)) + (Len(s) * s[1])
MCCfgs == {c \in MCAll : Covered(c.xb, c.xd, c.center, c.stretch) /\ Covered(c.yb, c.yd, c.center, 1)}
GENCfgs == IF Kind = "v" THEN {c \in Vert : Covered(c.xb, c.xd, c.center, c.stretch)} ELSE {c \in MCCfgs : c.type \notin {"regular", "fplane", "betaplane"} \/ (S1(c.xn) + S1(c.yn) + S1(c.xd) + S1(c.yb) + Len(c.xb)) % 5 = 0}
VARIABLE told
Emit == Done /\ ~told /\ PrintT("CASE|" \o ToJson(C)) /\ told' = TRUE /\ UNCHANGED vars
GENInit == Init /\ told = FALSE
GENNext == (Next /\ UNCHANGED told) \/ Emit
MCInit == Init /\ told = FALSE
MCNext == Next /\ UNCHANGED told
=============================================================================
