------------------------------ MODULE Topog ------------------------------
(***************************************************************************)
(* make_topog: the depth and the number of levels of the cells of an ocean *)
(* grid.  A depth is taken from a source (copied, or averaged over the wet *)
(* part of a cell by area), smoothed, closed along the first row, put onto *)
(* the levels of a vertical grid (with a partial bottom cell), cleared of  *)
(* cells which no corner with four open cells reaches, kept from very thin *)
(* bottom cells and from columns of too few levels.  Depths are integers,  *)
(* in units of 1/256 metre; level k ends at zw[k].                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANT Cfgs
VARIABLES cfg, pc, n, ht, kmt, old
vars == <<cfg, pc, n, ht, kmt, old>>
C == cfg
NI == C.ni
NJ == C.nj
Cells == 1..(NI * NJ)
Ci(c) == ((c - 1) % NI) + 1
Cj(c) == ((c - 1) \div NI) + 1
At(i, j) == ((j - 1) * NI) + i
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a < b THEN b ELSE a
Vert == Len(C.zw) > 0
NK == Len(C.zw)
Zw(k) == IF k < 1 THEN 0 ELSE C.zw[k]

\* ---- where the depth comes from ----------------------------------------
\* a box is [lon |-> edges, lat |-> edges] on a circle of C.N units; area is the width times the sine's difference
BNX(b) == Len(b.lon) - 1
BCell(b) == (Len(b.lon) - 1) * (Len(b.lat) - 1)
Lap(a, b, c, d) == LET x == Hi(a, c)  y == Lo(b, d) IN IF y > x THEN y - x ELSE 0
LonLap(a, b, c, d) == LET m == C.N IN MapThenSumSet(LAMBDA s : Lap(a, b, c + (s * m), d + (s * m)), -3..3)
Common(s, t) ==
  LET p == C.src  q == C.dst
      i == ((s - 1) % BNX(p)) + 1  j == ((s - 1) \div BNX(p)) + 1
      k == ((t - 1) % BNX(q)) + 1  l == ((t - 1) \div BNX(q)) + 1
  IN LonLap(q.lon[k], q.lon[k + 1], p.lon[i], p.lon[i + 1]) * Lap(q.lat[l], q.lat[l + 1], p.lat[j], p.lat[j + 1])
\* the mean of the wet part
Mean(t) ==
  LET wet == {s \in 1..BCell(C.src) : C.d[s] > 0 /\ Common(s, t) > 0}
      a == MapThenSumSet(LAMBDA s : Common(s, t), wet)
  IN IF wet = {} THEN 0 ELSE MapThenSumSet(LAMBDA s : Common(s, t) * C.d[s], wet) \div a
Source == [c \in Cells |-> CASE C.type = "basin" -> C.depth
                             [] C.type = "channel" -> IF \/ Cj(c) \in {1, NJ}
                                                          \/ (Ci(c) = 1 /\ (Cj(c) <= C.gap[1] \/ Cj(c) > C.gap[2]))
                                                          \/ (Ci(c) = NI /\ (Cj(c) <= C.gap[3] \/ Cj(c) > C.gap[4])) THEN 0 ELSE C.depth
                             [] C.type = "copy" -> Hi(C.d[c], 0)
                             [] OTHER -> Mean(c)]

\* ---- smoothing ------------------------------------------------------------
\* a land neighbour counts with the depth of the cell itself; the rim of the grid is left alone
Smooth(h) ==
  [c \in Cells |->
    IF h[c] = 0 \/ Ci(c) \in {1, NI} \/ Cj(c) \in {1, NJ} THEN h[c]
    ELSE LET w(p) == (2 - (IF p[1] = 0 THEN 0 ELSE 1)) * (2 - (IF p[2] = 0 THEN 0 ELSE 1))
             v(p) == LET e == At(Ci(c) + p[1], Cj(c) + p[2]) IN IF h[e] = 0 THEN h[c] ELSE h[e]
             s == MapThenSumSet(LAMBDA p : w(p) * v(p), {-1, 0, 1} \X {-1, 0, 1}) \div 16
         IN IF C.deepen THEN s ELSE Lo(s, h[c])]

\* ---- levels -----------------------------------------------------------------
\* the level a depth reaches into; what exceeds a level by less than the minimum thickness ends with it
Reach(d) == IF \E k \in 1..NK : d <= C.zw[k] THEN CHOOSE k \in 1..NK : d <= C.zw[k] /\ d > Zw(k - 1) ELSE NK + 1
Thin(d) == LET k == Reach(d) IN k > 1 /\ 10 * (d - Zw(k - 1)) < C.mt
Level(d) == IF d <= 0 THEN 0 ELSE LET k == Reach(d) IN IF Thin(d) \/ k > NK THEN k - 1 ELSE k
OnLevel(d) == IF d <= 0 THEN 0 ELSE LET k == Reach(d) IN IF Thin(d) \/ k > NK THEN Zw(k - 1) ELSE d
Bottom(d, k) == IF d <= 0 THEN 0 ELSE IF C.flat THEN Zw(NK) ELSE IF C.full THEN Zw(k) ELSE d
BotLevel(k) == IF k > 0 /\ C.flat THEN NK ELSE k

\* ---- cells which no open corner reaches ------------------------------------
Wrap(i) == ((i - 1) % NI) + 1
WrapJ(j) == ((j - 1) % NJ) + 1
\* the cell at (i, j), rows 0 and NJ+1 and columns 0 and NI+1 being across the boundary; 0 = land
Across(i, j) ==
  LET jj == IF j \in 1..NJ THEN j ELSE IF C.tri THEN (IF j > NJ THEN NJ ELSE 0) ELSE IF C.cycy THEN WrapJ(j) ELSE 0
      fold == C.tri /\ j > NJ
      ii == IF i \in 1..NI THEN i ELSE IF C.cycx THEN Wrap(i) ELSE 0
  IN IF ii = 0 \/ jj = 0 THEN 0 ELSE At(IF fold THEN (NI - ii) + 1 ELSE ii, jj)
Corner(i, j) == <<Across(i, j), Across(i + 1, j), Across(i, j + 1), Across(i + 1, j + 1)>>
MinOf(f, q) == Lo(Lo(IF q[1] = 0 THEN 0 ELSE f[q[1]], IF q[2] = 0 THEN 0 ELSE f[q[2]]), Lo(IF q[3] = 0 THEN 0 ELSE f[q[3]], IF q[4] = 0 THEN 0 ELSE f[q[4]]))
Opened(f, c) == LET i == Ci(c)  j == Cj(c) IN
  Hi(Hi(MinOf(f, Corner(i, j)), MinOf(f, Corner(i - 1, j))), Hi(MinOf(f, Corner(i, j - 1)), MinOf(f, Corner(i - 1, j - 1))))
Swept(c) == C.fill /\ ~(C.tri /\ Cj(c) = NJ)
\* the level of a cell after the sweep, given the levels before it
OpenLevel(k, c) == IF ~Swept(c) THEN k[c] ELSE LET o == Opened(k, c) IN IF o = 0 /\ C.keep THEN k[c] ELSE o
OpenDepth(h, k, c) == IF OpenLevel(k, c) = k[c] THEN h[c] ELSE IF OpenLevel(k, c) = 0 THEN 0 ELSE Opened(h, c)

\* ---- thin bottom cells ----------------------------------------------------
PMin(k) == IF C.frac = 0 THEN Lo(50 * 256, Zw(1)) ELSE IF k = 1 THEN (C.frac * Zw(1)) \div 40 ELSE Hi((C.frac * (Zw(k) - Zw(k - 1))) \div 40, C.mt \div 10)
TooThin(h, k) == k > 1 /\ h - Zw(k - 1) < PMin(k)
Closes(h, k) == ~C.opens /\ (Zw(k - 1) + PMin(k)) - h > h - Zw(k - 1)
RestrictDepth(h, k) == IF ~TooThin(h, k) THEN h ELSE IF Closes(h, k) THEN Zw(k - 1) ELSE Zw(k - 1) + PMin(k)
RestrictLevel(h, k) == IF TooThin(h, k) /\ Closes(h, k) THEN k - 1 ELSE k

\* ---- columns of too few levels ----------------------------------------------
Few(h, k) == h > 0 /\ k < C.kmin
Gone(h, k) == Few(h, k) /\ (C.few = "fill" \/ (C.few \in {"", "round"} /\ 2 * Zw(k) < Zw(C.kmin)))
FewDepth(h, k) == IF ~Few(h, k) THEN h ELSE IF Gone(h, k) THEN 0 ELSE Zw(C.kmin)
FewLevel(h, k) == IF ~Few(h, k) THEN k ELSE IF Gone(h, k) THEN 0 ELSE C.kmin

Refusal == Vert /\ C.adjust /\ NK < C.kmin

\* ---- the whole of it, at once -------------------------------------------
RECURSIVE Smoothed(_, _)
Smoothed(h, p) == IF p = 0 THEN h ELSE LET s == TLCEval(Smooth(h)) IN Smoothed(s, p - 1)
First == LET h == TLCEval(IF C.type \in {"basin", "channel"} THEN Source ELSE Smoothed(TLCEval(Source), C.passes))
         IN TLCEval([c \in Cells |-> IF C.row /\ Cj(c) = 1 THEN 0 ELSE h[c]])
Result ==
  LET h0 == First IN
  IF ~Vert THEN [h |-> h0, k |-> <<>>]
  ELSE LET k1 == TLCEval([c \in Cells |-> Level(h0[c])])
           h1 == TLCEval([c \in Cells |-> Bottom(OnLevel(h0[c]), k1[c])])
           k2 == TLCEval([c \in Cells |-> BotLevel(k1[c])])
       IN IF ~C.adjust THEN [h |-> h1, k |-> k2]
          ELSE LET h3 == TLCEval([c \in Cells |-> OpenDepth(h1, k2, c)])
                   k3 == TLCEval([c \in Cells |-> OpenLevel(k2, c)])
                   h4 == TLCEval([c \in Cells |-> RestrictDepth(h3[c], k3[c])])
                   k4 == TLCEval([c \in Cells |-> RestrictLevel(h3[c], k3[c])])
               IN [h |-> TLCEval([c \in Cells |-> FewDepth(h4[c], k4[c])]), k |-> TLCEval([c \in Cells |-> FewLevel(h4[c], k4[c])])]

\* ---- the steps ----------------------------------------------------------------
Init == cfg \in Cfgs /\ pc = "read" /\ n = 0 /\ ht = <<>> /\ kmt = <<>> /\ old = <<>>
Read == pc = "read" /\ ht' = TLCEval(Source) /\ n' = C.passes /\ pc' = (IF C.type \in {"basin", "channel"} THEN "row" ELSE "filter") /\ old' = ht' /\ UNCHANGED <<cfg, kmt>>
Filter == pc = "filter" /\ n > 0 /\ ht' = TLCEval(Smooth(ht)) /\ n' = n - 1 /\ UNCHANGED <<cfg, pc, kmt, old>>
Filtered == pc = "filter" /\ n = 0 /\ pc' = "row" /\ UNCHANGED <<cfg, n, ht, kmt, old>>
Row == pc = "row" /\ ht' = [c \in Cells |-> IF C.row /\ Cj(c) = 1 THEN 0 ELSE ht[c]]
       /\ pc' = (IF ~Vert THEN "done" ELSE IF Refusal THEN "refused" ELSE "levels") /\ UNCHANGED <<cfg, n, kmt, old>>
Levels == /\ pc = "levels" /\ LET k == [c \in Cells |-> Level(ht[c])] IN
             ht' = TLCEval([c \in Cells |-> Bottom(OnLevel(ht[c]), k[c])]) /\ kmt' = TLCEval([c \in Cells |-> BotLevel(k[c])])
          /\ pc' = (IF C.adjust THEN "sweep" ELSE "done") /\ n' = 1 /\ old' = [h |-> ht', k |-> kmt'] /\ UNCHANGED cfg
\* in place, cell after cell
Sweep == /\ pc = "sweep"
         /\ IF n > NI * NJ THEN pc' = "thin" /\ n' = 1 /\ UNCHANGED <<ht, kmt>>
            ELSE ht' = [ht EXCEPT ![n] = OpenDepth(ht, kmt, n)] /\ kmt' = [kmt EXCEPT ![n] = OpenLevel(kmt, n)] /\ n' = n + 1 /\ UNCHANGED pc
         /\ UNCHANGED <<cfg, old>>
ThinOut == pc = "thin" /\ ht' = [c \in Cells |-> RestrictDepth(ht[c], kmt[c])] /\ kmt' = [c \in Cells |-> RestrictLevel(ht[c], kmt[c])] /\ pc' = "few" /\ UNCHANGED <<cfg, n, old>>
Shallow == pc = "few" /\ ht' = [c \in Cells |-> FewDepth(ht[c], kmt[c])] /\ kmt' = [c \in Cells |-> FewLevel(ht[c], kmt[c])] /\ pc' = "done" /\ UNCHANGED <<cfg, n, old>>
Next == Read \/ Filter \/ Filtered \/ Row \/ Levels \/ Sweep \/ ThinOut \/ Shallow

\* ---- what holds ----------------------------------------------------------------
SameAsAtOnce == pc = "done" => ht = Result.h /\ (Vert => kmt = Result.k)
MaskKept == pc = "filter" => \A c \in Cells : (ht[c] = 0) = (old[c] = 0)
NeverDeeper == pc = "filter" /\ ~C.deepen => \A c \in Cells : ht[c] <= old[c]
Bounded == pc \in {"filter", "row"} => \A c \in Cells : \/ ht[c] = 0
  \/ \E a \in Cells : \E b \in Cells : old[a] > 0 /\ old[a] <= ht[c] /\ ht[c] <= old[b]
\* depth and level agree
Agree == pc \in {"sweep", "thin", "few", "done"} /\ Vert => \A c \in Cells : IF kmt[c] = 0 THEN ht[c] = 0 ELSE ht[c] > Zw(kmt[c] - 1) /\ ht[c] <= Zw(kmt[c])
\* the sweep leaves no cell out of reach, whatever its order, and deepens none
Reached == pc = "thin" => \A c \in Cells : OpenLevel(kmt, c) = kmt[c] /\ kmt[c] = OpenLevel(old.k, c) /\ ht[c] = OpenDepth(old.h, old.k, c) /\ kmt[c] <= old.k[c] /\ ht[c] <= old.h[c]
LandKept == pc = "thin" /\ C.keep => \A c \in Cells : (kmt[c] = 0) = (old.k[c] = 0)
Enough == pc = "done" /\ Vert /\ C.adjust => \A c \in Cells : kmt[c] = 0 \/ kmt[c] >= C.kmin
Thick == pc = "done" /\ Vert /\ C.adjust => \A c \in Cells : kmt[c] > 1 => ht[c] - Zw(kmt[c] - 1) >= PMin(kmt[c]) \/ ht[c] = Zw(kmt[c])
WholeCells == pc = "done" /\ Vert /\ C.full => \A c \in Cells : ht[c] = Zw(kmt[c])
FlatBottom == pc \in {"sweep", "thin"} /\ C.flat => \A c \in Cells : kmt[c] \in {0, NK}
FirstRow == pc = "done" /\ C.row => \A c \in Cells : Cj(c) = 1 => ht[c] = 0
Ends == pc \in {"done", "refused"} => TRUE
=============================================================================
