------------------------------ MODULE MC_Split ------------------------------
EXTENDS Split, Json
CONSTANTS Emit, MaxFiles
A(k, w) == [k |-> k, v |-> w]
Var(n, d, rec, x, a) == [n |-> n, t |-> "double", d |-> d, rec |-> rec, x |-> x, a |-> a, bounds |-> "", edges |-> "", climat |-> "", coords |-> <<>>, avg |-> <<>>, cellm |-> <<>>, terms |-> <<>>]
Z(nm, b, tm) == [Var(nm, <<nm>>, FALSE, <<1, 2>>, <<A("cartesian_axis", "Z"), A("units", "none")>> \o (IF b = "" THEN <<>> ELSE <<A("bounds", b)>>)) EXCEPT !.bounds = b, !.terms = tm]
Time(b) == [Var("time", <<"time">>, TRUE, <<7>>, <<A("cartesian_axis", "T"), A("calendar_type", "NOLEAP")>>) EXCEPT !.bounds = b]
DataV(n, z, co, av, st) == [Var(n, <<"time", z>>, TRUE, <<10, 11>>, (IF st THEN <<A("standard_name", "s")>> ELSE <<>>) \o (IF co = <<>> THEN <<>> ELSE <<A("coordinates", Words(co, 1))>>)) EXCEPT !.coords = co, !.avg = av]
File(k, tile, ext, vs) == [name |-> "f", tile |-> tile, ext |-> ext, time |-> "time", vars |-> vs]
Vs(z, zb, tm, tb, co, av, st, both) ==
  << Z(z, zb, tm) >> \o (IF zb = "" THEN <<>> ELSE << Var(zb, <<z, "nv">>, FALSE, <<3, 4, 5, 6>>, <<>>) >>) \o
  (IF tm = <<>> THEN <<>> ELSE << Var("ap_half", <<z>>, FALSE, <<8, 9>>, <<>>), Var("ps", <<"time">>, TRUE, <<12>>, <<>>) >>) \o
  << Time(tb) >> \o (IF tb = "" THEN <<>> ELSE << Var(tb, <<"time", "nv">>, TRUE, <<13, 14>>, <<>>) >>) \o
  << Var("height2", <<>>, FALSE, <<15>>, <<>>), Var("p500", <<>>, FALSE, <<16>>, <<A("units", "Pa")>>), Var("average_T1", <<"time">>, TRUE, <<17>>, <<>>) >> \o
  << DataV("a", z, co, av, st) >> \o (IF both THEN << DataV("b", z, <<>>, <<>>, FALSE) >> ELSE <<>>)
Base == [one |-> FALSE, ps |-> FALSE, log |-> FALSE, static |-> FALSE]
Mk(fs, l, g, c, au, st, on) == [files |-> fs, list |-> l, given |-> g, static |-> st, one |-> on, cmip |-> c, auto |-> au, ps |-> FALSE, log |-> FALSE]
\* (a plev## axis together with a p### coordinate would make two variables plev: not meaningful)
VSets == { Vs(z, zb, tm, tb, IF z = "plev19" THEN SelectSeq(co, LAMBDA c : c # "p500") ELSE co, av, st, both) : z \in {"lev", "plev19", "levhalf"}, zb \in {"", "lev_bnds"}, tm \in {<<>>, <<"ap_half", "ps">>}, tb \in {"", "time_bnds"},
           co \in {<<>>, <<"height2">>, <<"p500", "nowhere">>}, av \in {<<>>, <<"average_T1">>}, st \in BOOLEAN, both \in {TRUE} }
Tags == { <<"", "">>, <<".tile1", "">>, <<"", ".0000">> }
MCCfgs == { Mk([k \in 1..n |-> File(k, tg[1], tg[2], vs)], IF g THEN <<"a", "absent", "time_bnds">> ELSE <<>>, g, c, au, FALSE, FALSE) :
            n \in 1..MaxFiles, tg \in Tags, vs \in VSets, g \in BOOLEAN, c \in BOOLEAN, au \in {FALSE} } \cup
          { Mk(<<File(1, "", "", vs)>>, IF on THEN <<"a", "b">> ELSE <<>>, on, c, au, ~on, on) : vs \in VSets, c \in BOOLEAN, au \in BOOLEAN, on \in BOOLEAN }
ASSUME Emit => \A m \in {"files", "static", "one"} : \A n \in 1..(IF m = "files" THEN 3 ELSE 1) : \A fo \in {"plain", "tile", "ext", "mixtile"} : \A c \in BOOLEAN : \A au \in BOOLEAN :
   PrintT("CASE|" \o ToJson([mode |-> m, n |-> n, form |-> fo, cmip |-> c, auto |-> au]))
GenNext == FALSE /\ UNCHANGED vars
=============================================================================
