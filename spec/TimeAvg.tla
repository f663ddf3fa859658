------------------------------ MODULE TimeAvg ------------------------------
(* timavg: every input file becomes one record, the average of its records    *)
(* weighted with the lengths of their time intervals.                         *)
EXTENDS NcFile
CONSTANTS Cfgs
VARIABLES cfg, pc, f, r,
          sum, wt,   \* per variable and cell: weighted sum of the valid values, weight of the valid values
          tot,       \* weight of all records of the file so far
          outs, rc
vars == <<cfg, pc, f, r, sum, wt, tot, outs, rc>>
C == cfg
\* a variable: [n, rec, miss (there is a missing value), int (an integer type), size (cells)]
\* a file: [t (times), b (intervals <<lo, hi>>, empty without time bounds), x (variable -> record -> cell; a static variable has one record)]; a missing value is Miss
Miss == 99999
NV == Len(C.vars)
F == C.files[f]
NR(k) == Len(C.files[k].t)
Bnd == C.bounds # "none"           \* "bounds", "climatology" or "none": what the input's time axis has
Wt(k, q) == IF Bnd THEN C.files[k].b[q][2] - C.files[k].b[q][1] ELSE 1
\* the average is one of separate periods when the intervals of the first file do not join
Climo == Bnd /\ NR(1) > 1 /\ C.files[1].b[1][2] # C.files[1].b[2][1]
Zero == [k \in 1..NV |-> [c \in 1..C.vars[k].size |-> 0]]
Init == cfg \in Cfgs /\ pc = "start" /\ f = 1 /\ r = 1 /\ sum = <<>> /\ wt = <<>> /\ tot = 0 /\ outs = <<>> /\ rc = -1
Refuse == pc = "start" /\ ~C.here /\ pc' = "done" /\ rc' = 1 /\ UNCHANGED <<cfg, f, r, sum, wt, tot, outs>>
Begin == pc = "start" /\ C.here /\ pc' = "sum" /\ sum' = Zero /\ wt' = Zero /\ tot' = 0 /\ UNCHANGED <<cfg, f, r, outs, rc>>
Val(k, c) == F.x[k][r][c]
Add == /\ pc = "sum" /\ f <= Len(C.files) /\ r <= NR(f) /\ UNCHANGED <<cfg, pc, f, outs, rc>>
       /\ r' = r + 1 /\ tot' = tot + Wt(f, r)
       /\ LET w == Wt(f, r)  Ok(k, c) == C.vars[k].rec /\ ~(C.vars[k].miss /\ Val(k, c) = Miss) IN
          /\ sum' = TLCEval([k \in 1..NV |-> [c \in 1..C.vars[k].size |-> IF Ok(k, c) THEN sum[k][c] + w * Val(k, c) ELSE sum[k][c]]])
          /\ wt'  = TLCEval([k \in 1..NV |-> [c \in 1..C.vars[k].size |-> IF Ok(k, c) THEN wt[k][c] + w ELSE wt[k][c]]])
\* a cell is valid when more than the requested part (in percent) of the period has valid values;
\* a file with one record is taken as it is
Valid(k, c) == wt[k][c] > 0 /\ (NR(f) = 1 \/ ~C.vars[k].miss \/ 100 * wt[k][c] > C.frac * tot \/ (C.frac >= 100 /\ wt[k][c] = tot))
Mean(k, c) == IF Valid(k, c) THEN <<sum[k][c], wt[k][c]>> ELSE <<Miss, 1>>
Last(s) == s[Len(s)]
DT == F.t[2] - F.t[1]
TB == IF Bnd THEN << F.b[1][1], Last(F.b)[2] >> ELSE IF NR(f) = 1 THEN << F.t[1], F.t[1] >> ELSE << F.t[1] - DT, Last(F.t) >>
\* twice the time, to stay with integers
Time2 == IF ~C.mid THEN 2 * Last(F.t)
         ELSE IF ~Climo THEN TB[1] + TB[2]
         ELSE IF C.bounds = "bounds" THEN Last(F.b)[1] + Last(F.b)[2] ELSE 2 * Last(F.t)
Write == /\ pc = "sum" /\ f <= Len(C.files) /\ r > NR(f) /\ UNCHANGED <<cfg, pc, rc>>
         /\ outs' = Append(outs, [time2 |-> Time2, tb |-> TB, x |-> TLCEval([k \in 1..NV |-> [c \in 1..C.vars[k].size |-> IF C.vars[k].rec THEN Mean(k, c) ELSE <<0, 1>>]])])
         /\ f' = f + 1 /\ r' = 1 /\ sum' = Zero /\ wt' = Zero /\ tot' = 0
End == pc = "sum" /\ f > Len(C.files) /\ pc' = "done" /\ rc' = 0 /\ UNCHANGED <<cfg, f, r, sum, wt, tot, outs>>
Next == Refuse \/ Begin \/ Add \/ Write \/ End

HasTB == Bnd \/ C.addb
TBName == IF Climo /\ C.bounds = "bounds" THEN "climatology_bounds" ELSE IF Bnd THEN "time_bnds" ELSE "time_bounds"
TypeOK == pc \in {"start", "sum", "done"} /\ rc \in {-1, 0, 1} /\ f \in 1..(Len(C.files) + 1)
\* a mean lies between the least and the greatest valid value of the file's records
Between == \A q \in 1..Len(outs) : \A k \in 1..NV : \A c \in 1..C.vars[k].size :
   LET m == outs[q].x[k][c]  S == {C.files[q].x[k][z][c] : z \in 1..NR(q)} \ (IF C.vars[k].miss THEN {Miss} ELSE {})
   IN  (C.vars[k].rec /\ m[1] # Miss) => /\ \E v \in S : v * m[2] <= m[1]
                                        /\ \E v \in S : v * m[2] >= m[1]
\* the same in every record: that value
Constant == \A q \in 1..Len(outs) : \A k \in 1..NV : \A c \in 1..C.vars[k].size :
   C.vars[k].rec => LET S == {C.files[q].x[k][z][c] : z \in 1..NR(q)} IN Cardinality(S) = 1 => LET m == outs[q].x[k][c] IN \A v \in S : m[1] = v * m[2]
OnePerFile == (pc = "done" /\ rc = 0) => Len(outs) = Len(C.files)
=============================================================================
