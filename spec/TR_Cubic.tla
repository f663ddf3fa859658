---------------------------- MODULE TR_Cubic ----------------------------
(* A recorded run of fregrid from a cubed sphere against the specification.  Areas are in millionths of a mean input cell,  *)
(* values in thousandths.  C.xo[o] are the pieces [c, a] of output cell o as saved by --remap_file.                          *)
EXTENDS Cubic, Json, IOUtils
TRCfgs == LET cs == ndJsonDeserialize(IOEnv.CASES) IN {cs[k] : k \in 1..Len(cs)}
O == C.obs
Abs(a) == IF a < 0 THEN -a ELSE a
If(b, w) == IF b THEN {} ELSE {w}
BIG == 2000000000
Outs == 1..Len(C.aout)
Ins == 1..NC(C.n)
SumSeq(s, f(_)) == FoldLeft(LAMBDA x, y : x + f(y), 0, s)
\* thousandths of s / a
Ratio(s, a) == LET q == s \div a  r == s % a IN (q * 1000) + (IF a < 2000000 THEN (r * 1000) \div a ELSE r \div (a \div 1000))
BadArea ==
  LET got == TLCEval(O.ain) IN
  {<<"input cell", c, got[c], C.ain[c]>> : c \in {c \in Ins : C.whole /\ Abs(got[c] - C.ain[c]) > 60}} \cup
  {<<"output cell", o, C.aout[o]>> : o \in {o \in Outs : Abs(SumSeq(O.xo[o], LAMBDA p : p[2]) - C.aout[o]) > 60}}
\* one level of one time step
BadRec(r, nb) ==
  LET d == C.data[r]
      ok(p) == C.valid[p[1]]
      src(o) == SelectSeq(O.xo[o], ok)
      o3(o) == O.out[r][o]
      mean(o, s) == LET z == Min({d[s[k][1]] : k \in 1..Len(s)}) IN (1000 * z) + Ratio(SumSeq(s, LAMBDA p : p[2] * (d[p[1]] - z)), SumSeq(s, LAMBDA p : p[2]))
      near(s) == UNION {{d[c] : c \in {c \in nb[s[k][1]] : C.valid[c]}} : k \in 1..Len(s)}
      own(s) == {d[s[k][1]] : k \in 1..Len(s)}
      \* areas are rounded: what that does to the mean
      tol(s) == LET z == own(s) IN 3 + ((600 * Len(s) * (Max(z) - Min(z))) \div SumSeq(s, LAMBDA p : p[2]))
      flat(s) == \A k \in 1..Len(s) : (\E c \in nb[s[k][1]] : ~C.valid[c])
      drift == 2 + ((50 * Max({Abs(d[c]) : c \in Ins})) \div (C.n * C.n))
      bad(o) == LET s == TLCEval(src(o)) IN
        IF o3(o) = BIG THEN If(s = <<>>, <<"missing", r, o>>)
        ELSE IF s = <<>> THEN {<<"not missing", r, o, o3(o)>>}
        ELSE IF SumSeq(s, LAMBDA p : p[2]) < 30 THEN {}
        ELSE LET m == TLCEval(mean(o, s)) IN
          CASE C.method = "conserve_order1" -> If(Abs(o3(o) - m) <= tol(s), <<"mean", r, o, o3(o), m>>)
            [] C.method = "conserve_order2" -> IF flat(s) THEN If(Abs(o3(o) - m) <= tol(s), <<"next to a hole", r, o, o3(o), m>>)
                                               ELSE LET z == TLCEval(near(s)) IN If(Abs(o3(o) - m) <= (1000 * (Max(z) - Min(z))) + drift, <<"far off", r, o, o3(o), m>>)
            [] OTHER -> (IF flat(s) THEN If(Abs(o3(o) - m) <= tol(s), <<"next to a hole", r, o, o3(o), m>>) ELSE {}) \cup
                        (LET z == TLCEval(near(s)) IN If(o3(o) >= (1000 * Min(z)) - 1 /\ o3(o) <= (1000 * Max(z)) + 1, <<"range", r, o, o3(o), Min(z), Max(z)>>))
  IN UNION {bad(o) : o \in Outs}
BadBilinear(r) == LET d == C.data[r]  z == {d[c] : c \in {c \in Ins : C.valid[c]}} IN
  {<<"range", r, o, O.out[r][o]>> : o \in {o \in Outs : O.out[r][o] # BIG /\ (O.out[r][o] < (1000 * Min(z)) - 1 \/ O.out[r][o] > (1000 * Max(z)) + 1)}} \cup
  {<<"missing", r, o>> : o \in {o \in Outs : O.out[r][o] = BIG /\ \A c \in Ins : C.valid[c]}}
\* how much more than it can be: smooth fields lose no more than a part of the squared cell width
Rough == [conserve_order1 |-> 13000, conserve_order2 |-> 13000, conserve_order2_monotonic |-> 15000, bilinear |-> 9000]
Failed == IF O.rc # 0 \/ ~O.read THEN {<<"status", O.rc>>}
  ELSE If(O.files, <<"files">>) \cup If(O.inputs, <<"inputs changed">>) \cup If(O.shape, <<"shape">>) \cup If(O.again, <<"differs when run again with saved weights">>) \cup
       If(O.alone, <<"differs between one and several processes">>) \cup If(O.moment < 10, <<"moment", O.moment>>) \cup
       If(~C.whole \/ O.total < 10, <<"total", O.total>>) \cup If(O.rough <= Rough[C.method], <<"rough", O.rough>>) \cup If(O.identity < 10, <<"identity", O.identity>>) \cup
       (IF ~O.shape THEN {} ELSE IF C.method = "bilinear" THEN UNION {BadBilinear(r) : r \in 1..Len(C.data)}
        ELSE BadArea \cup (LET nb == TLCEval([c \in Ins |-> Around(C.n, c)]) IN UNION {BadRec(r, nb) : r \in 1..Len(C.data)}))
VARIABLE told
View == <<C.id, told>>
TRInit == cfg \in Cfgs /\ pc = "add" /\ left = {} /\ sum = <<>> /\ area = <<>> /\ told = FALSE
Tell == ~told /\ PrintT(<<"VERDICT", C.id, Failed>>) /\ told' = TRUE /\ UNCHANGED vars
TRNext == Tell
==========================================================================
