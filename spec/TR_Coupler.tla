---------------------------- MODULE TR_Coupler ----------------------------
(* A recorded run of make_coupler_mosaic (or its parallel build) against the
   specification: the set of clauses it violates. *)
EXTENDS Coupler, Json, IOUtils
TRCfgs == LET cs == ndJsonDeserialize(IOEnv.CASES) IN {cs[k] : k \in 1..Len(cs)}
O == C.obs
If(b, w) == IF b THEN {} ELSE {w}
Abs(a) == IF a < 0 THEN -a ELSE a
G(q) == {q[k] : k \in 1..Len(q)}
\* names: C.nm.a/l/o/w = mosaic names, C.tn.a/l/o/w = tile names
Pre(k) == IF C.nm.a = C.nm.o THEN (CASE k = "a" -> "atm_" [] k = "l" -> "lnd_" [] k = "o" -> "ocn_" [] k = "w" -> "wav_") ELSE ""
File(k, n, h, m) == Pre(k) \o C.nm[k] \o "_" \o C.tn[k][n] \o "X" \o Pre(h) \o C.nm[h] \o "_" \o C.tn[h][m] \o ".nc"
Contact(k, n, h, m) == C.nm[k] \o ":" \o C.tn[k][n] \o "::" \o C.nm[h] \o ":" \o C.tn[h][m]
Nt(k) == CASE k = "a" -> Len(C.atm) [] k = "l" -> Len(C.lnd) [] k = "o" -> Len(C.ocn) [] k = "w" -> Len(C.wav)
Sets == {<<"a", "o", xs.axo>>, <<"a", "l", xs.axl>>} \cup (IF C.same THEN {} ELSE {<<"l", "o", xs.lxo>>}) \cup (IF Nt("w") = 0 THEN {} ELSE {<<"w", "o", xs.wxo>>})
\* the exchange grid files expected: one for every pair of tiles with common cells
Want == UNION {{<<s[1], s[2], x.p[1], x.q[1]>> : x \in s[3]} : s \in Sets}
Name(f) == File(f[1], f[3], f[2], f[4])
All(f) == CASE f[1] = "a" -> xs.axo \cup xs.axl [] f[1] = "l" -> xs.lxo [] f[1] = "w" -> xs.wxo
Own(f) == CASE f[1] = "a" /\ f[2] = "o" -> xs.axo [] f[1] = "a" /\ f[2] = "l" -> xs.axl [] f[1] = "l" -> xs.lxo [] f[1] = "w" -> xs.wxo
\* centroid of the first parent: over everything it exchanges; of the second: over what it exchanges in this grid (without the nest)
D1(f, x) == LET T == {y \in All(f) : y.p = x.p} IN
            IF f[1] = "a" THEN LET A == SumA({y \in xs.axo : y.p = x.p}) + SumA({y \in xs.axl : y.p = x.p})
                                   M == SumM({y \in xs.axo : y.p = x.p}) + SumM({y \in xs.axl : y.p = x.p})
                                   H == SumG({y \in xs.axo : y.p = x.p}) + SumG({y \in xs.axl : y.p = x.p})
                               IN <<Cl(x.M, x.A) - Cl(M, A), Cg(x.G, x.A) - Cg(H, A)>>
            ELSE <<Cl(x.M, x.A) - Cl(SumM(T), SumA(T)), Cg(x.G, x.A) - Cg(SumG(T), SumA(T))>>
D2(f, x) == LET T == {y \in Own(f) : y.q = x.q /\ (f[1] = "a" => Counts(y))} IN
            <<Cl(x.M2, x.A) - Cl(SumM2(T), SumA(T)), Cg(x.G, x.A) - Cg(SumG(T), SumA(T))>>
Tol == 8 + (4 * C.S)
BadCells(f, y) ==
  LET want == {x \in Own(f) : x.p[1] = f[3] /\ x.q[1] = f[4]}
      key(x) == <<x.p[2], x.p[3], x.q[2], x.q[3]>>
      seen == {k \in 1..Len(y.cells) : TRUE}
      keys == [k \in seen |-> <<y.cells[k][1], y.cells[k][2], y.cells[k][3], y.cells[k][4]>>]
  IN If({keys[k] : k \in seen} = {key(x) : x \in want} /\ Len(y.cells) = Cardinality(want), <<"cells", Name(f), {keys[k] : k \in seen} \ {key(x) : x \in want}, {key(x) : x \in want} \ {keys[k] : k \in seen}>>) \cup
     UNION {LET k == CHOOSE k \in seen : keys[k] = key(x)  v == y.cells[k]
                T2 == {z \in Own(f) : z.q = x.q /\ (f[1] = "a" => Counts(z))} IN
            If(Abs(v[5] - (100 * x.A)) <= 2, <<"area", Name(f), v, x.A>>) \cup
            (IF C.order # 2 THEN If(Len(v) = 5, <<"distances", Name(f)>>)
             ELSE IF Len(v) # 9 THEN {<<"no distances", Name(f)>>}
             ELSE LET d1 == D1(f, x) IN
                  If(Abs(v[6] - d1[1]) <= 12 /\ Abs(v[7] - d1[2]) <= Tol, <<"distance1", Name(f), v, d1>>) \cup
                  (IF T2 = {} THEN {} ELSE LET d2 == D2(f, x) IN If((C.lon2 => Abs(v[8] - d2[1]) <= 12) /\ Abs(v[9] - d2[2]) <= Tol, <<"distance2", Name(f), v, d2>>)))
            : x \in {x \in want : \E k \in seen : keys[k] = key(x)}}
XFiles == {O.files[k] : k \in 1..Len(O.files)}
BadFile(f) == LET ys == {y \in XFiles : y.name = Name(f)} IN
              IF ys = {} THEN {<<"no file", Name(f)>>} ELSE LET y == CHOOSE y \in ys : TRUE IN
              If(y.contact = Contact(f[1], f[3], f[2], f[4]), <<"contact", y.contact>>) \cup BadCells(f, y)
\* masks
Mask(k, n) == (CASE k = "o" -> "ocean_mask" [] k = "l" -> "land_mask" [] k = "w" -> "wave_mask") \o (IF Nt(k) = 1 THEN "" ELSE "_tile" \o ToString(n)) \o ".nc"
Masks == UNION {{Mask(k, n) : n \in 1..Nt(k)} : k \in {"o", "l", "w"}}
\* y.v = sequence of <<fraction in 1/1000, cell area, exchanged area (1/1000 of a unit box)>>
BadMask(k, n) == LET ms == {y \in G(O.masks) : y.name = Mask(k, n)}  t == CASE k = "o" -> C.ocn[n] [] k = "l" -> C.lnd[n] [] k = "w" -> C.wav[n] IN
   IF ms = {} THEN {<<"no mask", k, n>>} ELSE LET y == CHOOSE y \in ms : TRUE  cs == TileCells(n, t) IN
   IF y.nx # NX(t) \/ y.ny # NY(t) THEN {<<"mask size", k, n>>} ELSE
   UNION {LET c == cs[q]  A == IF k = "w" THEN Of(xs.wxo, c) ELSE By({x \in (IF k = "o" THEN xs.axo ELSE xs.axl) : Counts(x)}, c)  v == y.v[q] IN
          If((k # "w" => Abs(v[2] - (1000 * Area(c))) <= 5 /\ Abs(v[3] - (100 * A)) <= 5) /\ Abs(v[1] - ((100 * A) \div Area(c))) <= 2, <<"mask", k, n, q, v, A>>) : q \in 1..Len(cs)}
\* the coupler mosaic file
Fs(k, h) == {Name(f) : f \in {f \in Want : f[1] = k /\ f[2] = h}}
BadMosaic == LET m == O.mosaic IN IF ~m.here THEN {<<"no mosaic">>} ELSE
   If(G(m.aXo) = Fs("a", "o") /\ Len(m.aXo) = Cardinality(Fs("a", "o")), <<"aXo list", m.aXo>>) \cup
   If(G(m.aXl) = Fs("a", "l") /\ Len(m.aXl) = Cardinality(Fs("a", "l")), <<"aXl list", m.aXl>>) \cup
   (LET w == IF C.same THEN Fs("a", "o") ELSE Fs("l", "o") IN If(G(m.lXo) = w /\ Len(m.lXo) = Cardinality(w), <<"lXo list", m.lXo>>)) \cup
   If(G(m.wXo) = Fs("w", "o") /\ Len(m.wXo) = Cardinality(Fs("w", "o")), <<"wXo list", m.wXo>>) \cup
   UNION {If(m[k] = C.paths[k], <<"name", k, m[k], C.paths[k]>>) : k \in DOMAIN C.paths}
Failed == IF C.bad THEN If(O.rc # 0, <<"accepted">>)
          ELSE If(O.rc = 0, <<"status", O.rc>>) \cup If(O.inputs, <<"inputs changed">>) \cup
               (IF O.rc # 0 THEN {} ELSE
               If(G(O.dir) = {Name(f) : f \in Want} \cup Masks \cup {C.mfile}, <<"files", G(O.dir) \ ({Name(f) : f \in Want} \cup Masks \cup {C.mfile}), ({Name(f) : f \in Want} \cup Masks \cup {C.mfile}) \ G(O.dir)>>) \cup
               UNION {BadFile(f) : f \in Want} \cup UNION {UNION {BadMask(k, n) : n \in 1..Nt(k)} : k \in {"o", "l", "w"}} \cup BadMosaic)
VARIABLE told
View == <<C.id, pc, next, told>>
TRInit == Init /\ told = FALSE
Tell == Done /\ ~told /\ PrintT(<<"VERDICT", C.id, Failed>>) /\ told' = TRUE /\ UNCHANGED vars
TRNext == (Next /\ UNCHANGED told) \/ Tell
=============================================================================
