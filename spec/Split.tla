------------------------------- MODULE Split -------------------------------
(* split_ncvars: one file per variable, files taken in the order given, the   *)
(* records of later files appended to what is there.                          *)
EXTENDS NcFile
CONSTANTS Cfgs
VARIABLES cfg, pc, f, v, list, outs, rc
vars == <<cfg, pc, f, v, list, outs, rc>>
C == cfg
\* a file: [name, tile, ext, time (name of the record dimension), vars]
\* a variable: [n, t, d (dimension names), rec, x, a (attributes [k, v]), bounds, edges, climat (names or ""), coords, avg, cellm, terms (sequences of names)]
F(k) == C.files[k]
Has(k, n) == \E q \in 1..Len(F(k).vars) : F(k).vars[q].n = n
V(k, n) == F(k).vars[CHOOSE q \in 1..Len(F(k).vars) : F(k).vars[q].n = n]
Exist(k, S) == {n \in S : n # "" /\ Has(k, n)}
\* a variable with at least one dimension
Array(k, S) == {n \in S : n # "" /\ Has(k, n) /\ V(k, n).d # <<>>}
BoundsOf(k, n) == IF Has(k, n) THEN Array(k, {V(k, n).bounds, V(k, n).edges}) ELSE {}
Static(k, n) == Has(k, n) /\ V(k, n).d # <<>> /\ ~V(k, n).rec
Geo(k) == Array(k, {"geolat", "geolon", "GEOLAT", "GEOLON"})
TimeB(k) == IF ~C.static /\ Has(k, F(k).time) THEN {V(k, F(k).time).bounds, V(k, F(k).time).climat} \ {""} ELSE {}

\* ---- attributes as sets of [k, v] ----
Atts(k, n) == {V(k, n).a[q] : q \in 1..Len(V(k, n).a)}
HasA(S, k) == \E a \in S : a.k = k /\ a.v # ""
Val(S, k) == IF HasA(S, k) THEN (CHOOSE a \in S : a.k = k).v ELSE ""
Del(S, k) == {a \in S : a.k # k}
Put(S, k, w) == Del(S, k) \cup {[k |-> k, v |-> w]}
Up == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lo == "abcdefghijklmnopqrstuvwxyz"
LowC(c) == IF \E q \in 1..26 : SubSeq(Up, q, q) = c THEN LET q == CHOOSE q \in 1..26 : SubSeq(Up, q, q) = c IN SubSeq(Lo, q, q) ELSE c
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE LowC(SubSeq(s, 1, 1)) \o Lower(SubSeq(s, 2, Len(s)))
\* the clean-up of axis attributes for CMIP
Axis(S) == LET ca == Val(S, "cartesian_axis")
           IN  IF ca = "" THEN S ELSE Del(IF ca # "N" /\ ~HasA(S, "axis") THEN Put(S, "axis", ca) ELSE S, "cartesian_axis")
Cal(S) == LET c == Val(S, "calendar")  ct == Val(S, "calendar_type")
          IN  Del(IF c # "" THEN Put(S, "calendar", Lower(c)) ELSE IF ct # "" THEN Put(S, "calendar", Lower(ct)) ELSE S, "calendar_type")
Units(S) == IF Lower(Val(S, "units")) = "none" THEN Put(S, "units", "1") ELSE S
Std(S, n) == LET w == IF n \in {"lat", "latitude"} THEN "latitude" ELSE IF n \in {"lon", "longitude"} THEN "longitude" ELSE ""
             IN  IF w # "" /\ ~HasA(S, "standard_name") THEN Put(S, "standard_name", w) ELSE S
Cleanup(S, n) == Std(Units(Cal(Axis(S))), n)

\* ---- the list of variables ----
Ends(s, e) == Len(s) >= Len(e) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
Aux(n) == Ends(n, "_T1") \/ Ends(n, "_T2") \/ Ends(n, "_DT") \/ Ends(n, "_NITEMS")
Pick(k, S(_)) == LET RECURSIVE G(_)
                     G(q) == IF q > Len(F(k).vars) THEN <<>> ELSE (IF S(F(k).vars[q]) THEN <<F(k).vars[q].n>> ELSE <<>>) \o G(q + 1)
                 IN  G(1)
TimeVarying(k) == Pick(k, LAMBDA x : x.rec /\ ~Aux(x.n) /\ Len(x.d) - 1 <= 4)
Fixed(k) == Pick(k, LAMBDA x : ~x.rec /\ ~Aux(x.n) /\ Len(x.d) <= 3)
List == IF C.given THEN C.list ELSE IF C.static THEN Fixed(1) ELSE TimeVarying(1)

Cmip(k, n) == C.cmip \/ (C.auto /\ HasA(Atts(k, n), "standard_name"))
Terms(k, n) == UNION {Range(V(k, d).terms) \cup UNION {Range(V(k, b).terms) : b \in Exist(k, {V(k, d).bounds})} : d \in Exist(k, Range(V(k, n).d))}
IsAxis(k, d) == Has(k, d) /\ (HasA(Atts(k, d), "axis") \/ HasA(Atts(k, d), "cartesian_axis"))
WithPs(k, n) == /\ C.ps
                /\ Cardinality({d \in Range(V(k, n).d) : IsAxis(k, d)}) >= 4
                /\ \E d \in Range(V(k, n).d) : IsAxis(k, d) /\ d \in {"pfull", "phalf"}
\* what has to stand beside the variable when its file is created
Companions(k, n) ==
  Geo(k) \cup
  UNION {BoundsOf(k, d) : d \in Range(V(k, n).d) \ {F(k).time}} \cup
  Exist(k, Range(V(k, n).coords)) \cup UNION {BoundsOf(k, c) : c \in Exist(k, Range(V(k, n).coords))} \cup
  {t \in Terms(k, n) : Static(k, t)} \cup
  (IF WithPs(k, n) THEN Exist(k, {"ps", "pk", "bk"}) ELSE {})
\* what goes along with every batch of records
TimeInfo(k, n) == IF C.static THEN {} ELSE (IF Cmip(k, n) THEN {} ELSE Exist(k, Range(V(k, n).avg))) \cup Exist(k, TimeB(k))
DimVars(k, S) == UNION {Exist(k, Range(V(k, m).d)) : m \in S}
External(k, n) == (IF V(k, n).d = <<>> THEN {} ELSE Range(V(k, n).cellm)) \cup {t \in Terms(k, n) : ~Static(k, t)}
Skipped(k, n) == ~Has(k, n) \/ n \in TimeB(k)

\* ---- renaming: a function from the names that change ----
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Numbered(n, s) == Len(n) > Len(s) /\ SubSeq(n, 1, Len(s)) = s /\ SubSeq(n, Len(s) + 1, Len(s) + 1) \in Digits
NoRen == [m \in {} |-> ""]
Join(a, b) == [m \in (DOMAIN a) \cup (DOMAIN b) |-> IF m \in DOMAIN a THEN a[m] ELSE b[m]]
One(m, w) == [q \in {m} |-> w]
Heights(k, n) == {c \in Exist(k, Range(V(k, n).coords)) : Numbered(c, "height")}
Plevs(k, n) == {c \in Exist(k, Range(V(k, n).coords)) : Numbered(c, "p") /\ Val(Atts(k, c), "units") = "Pa"}
ZDims(k, n) == {d \in Exist(k, Range(V(k, n).d)) : \E a \in Atts(k, d) : a.k \in {"axis", "cartesian_axis"} /\ a.v = "Z"}
HalfTerms == "ap: ap_half b: b_half ps: ps"
Ren(k, n) ==
  LET h == Heights(k, n)  p == IF Cmip(k, n) THEN Plevs(k, n) ELSE {}  z == IF Cmip(k, n) THEN ZDims(k, n) ELSE {}
      r1 == IF Cardinality(h) = 1 THEN One(CHOOSE c \in h : TRUE, "height") ELSE NoRen
      r2 == IF Cardinality(p) = 1 THEN LET c == CHOOSE c \in p : TRUE IN
               Join(One(c, "plev"), IF V(k, c).bounds \in Array(k, {V(k, c).bounds}) THEN One(V(k, c).bounds, "plev_bnds") ELSE NoRen) ELSE NoRen
      r3 == IF \E d \in z : Numbered(d, "plev") THEN One(CHOOSE d \in z : Numbered(d, "plev"), "plev") ELSE NoRen
      r4 == IF "levhalf" \in z THEN Join(One("levhalf", "lev"), IF Val(Atts(k, "levhalf"), "formula_terms") = HalfTerms THEN Join(One("ap_half", "ap"), One("b_half", "b")) ELSE NoRen) ELSE NoRen
  IN  Join(Join(r1, r2), Join(r3, r4))
To(r, m) == IF m \in DOMAIN r THEN r[m] ELSE m
RECURSIVE Words(_, _)
Words(s, q) == IF q > Len(s) THEN "" ELSE s[q] \o (IF q < Len(s) THEN " " ELSE "") \o Words(s, q + 1)
RenCoords(k, n, r) == Words([q \in 1..Len(SelectSeq(V(k, n).coords, LAMBDA c : Has(k, c))) |-> To(r, SelectSeq(V(k, n).coords, LAMBDA c : Has(k, c))[q])], 1)

\* attributes of variable m in the output for variable n
OutAtts(k, n, m) ==
  LET r == Ren(k, n)
      cl == IF ~Cmip(k, n) THEN {} ELSE LET D == Range(V(k, n).d)  B == Exist(k, {V(k, d).bounds : d \in Exist(k, D)}) IN D \cup B \cup UNION {Range(V(k, b).d) : b \in B}
      S0 == Atts(k, m)
      S1 == IF m \in cl THEN Cleanup(S0, m) ELSE S0
      S2 == IF m = n /\ Cmip(k, n) THEN Del(S1, "time_avg_info") ELSE S1
      S3 == IF m = n /\ \E c \in Exist(k, Range(V(k, n).coords)) : c \in DOMAIN r THEN Put(S2, "coordinates", RenCoords(k, n, r)) ELSE S2
      S4 == IF m \in DOMAIN r /\ r[m] = "plev" /\ m \in Plevs(k, n) /\ HasA(S3, "bounds") /\ Val(S3, "bounds") \in DOMAIN r THEN Put(S3, "bounds", "plev_bnds") ELSE S3
      S5 == IF m = "levhalf" /\ m \in DOMAIN r /\ Val(S4, "formula_terms") = HalfTerms THEN Put(S4, "formula_terms", "ap: ap b: b ps: ps") ELSE S4
  IN  S5

Known == DOMAIN outs
Out(k, n) == IF C.one THEN "one" ELSE n \o F(k).tile \o ".nc" \o F(k).ext
Need(k, n) == LET S == {n} \cup Companions(k, n) \cup TimeInfo(k, n) IN IF C.one THEN S ELSE S \cup DimVars(k, S)
Init == cfg \in Cfgs /\ pc = "start" /\ f = 1 /\ v = 1 /\ rc = -1 /\ outs = [n \in {} |-> <<>>] /\ list = <<>>
Begin == pc = "start" /\ pc' = "work" /\ list' = List /\ UNCHANGED <<cfg, f, v, outs, rc>>
\* an output: the variable, the files its records come from, what must be in it
Step == /\ pc = "work" /\ f <= Len(C.files) /\ UNCHANGED <<cfg, rc, pc, list>>
        /\ IF v > Len(list) THEN f' = f + 1 /\ v' = 1 /\ UNCHANGED outs
           ELSE /\ v' = v + 1 /\ UNCHANGED f
                /\ LET n == list[v]  o == Out(f, n) IN
                   IF Skipped(f, n) THEN UNCHANGED outs
                   ELSE LET e == IF o \in Known /\ C.one THEN [outs[o] EXCEPT !.need = @ \cup Need(f, n)]
                                 ELSE IF o \in Known THEN [outs[o] EXCEPT !.from = Append(@, f)]
                                 ELSE [var |-> n, from |-> <<f>>, ext |-> External(f, n), need |-> Need(f, n), ren |-> IF C.one THEN NoRen ELSE Ren(f, n)]
                        IN  outs' = [m \in Known \cup {o} |-> IF m = o THEN e ELSE outs[m]]
End == pc = "work" /\ f > Len(C.files) /\ pc' = "done" /\ rc' = 0 /\ UNCHANGED <<cfg, f, v, list, outs>>
Next == Begin \/ Step \/ End
\* contents of variable m in output o
RECURSIVE Cat(_, _, _)
Cat(from, m, k) == IF k > Len(from) THEN <<>> ELSE V(from[k], m).x \o Cat(from, m, k + 1)
Data(o, m) == LET a == outs[o].from IN IF V(a[1], m).rec THEN Cat(a, m, 1) ELSE V(a[1], m).x
TypeOK == pc \in {"start", "work", "done"} /\ rc \in {-1, 0}
\* every record of every listed variable that is in a file ends up in exactly one output, in file order
Lossless == pc = "done" => \A k \in 1..Len(list) : \A q \in 1..Len(C.files) :
   ~Skipped(q, list[k]) => LET o == Out(q, list[k]) IN o \in Known /\ (C.one \/ (outs[o].var = list[k] /\ q \in Range(outs[o].from)))
Ordered == \A o \in Known : \A a \in 1..(Len(outs[o].from) - 1) : outs[o].from[a] < outs[o].from[a + 1]
\* nothing a variable refers to inside its file is left behind
Closed == \A o \in Known : ~C.one => LET k == outs[o].from[1]  n == outs[o].var IN
   /\ n \in outs[o].need
   /\ \A d \in Exist(k, Range(V(k, n).d)) : d \in outs[o].need
   /\ \A c \in Exist(k, Range(V(k, n).coords)) : c \in outs[o].need
\* two names never become one
Distinct == \A o \in Known : LET r == outs[o].ren IN \A a, b \in outs[o].need : a # b => To(r, a) # To(r, b)
=============================================================================
