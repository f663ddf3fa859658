--------------------------- MODULE MC_MppCombine ---------------------------
(* Small exhaustive configurations: every way of cutting a 1-D or 2-D domain   *)
(* into pieces, records 0..3, blocking factors 0..3, absent / damaged pieces.  *)
EXTENDS MppCombine, SequencesExt, Json
CONSTANTS MaxN, MaxRec, Emit

\* cuts of 0..n-1 into m consecutive non-empty intervals
RECURSIVE Cuts(_, _, _)
Cuts(lo, n, m) == IF m = 1 THEN {<< <<lo, n - 1>> >>}
                  ELSE UNION { {<< <<lo, h>> >> \o c : c \in Cuts(h + 1, n, m - 1)} : h \in lo..(n - m) }
AllCuts(n, mm) == UNION {Cuts(0, n, m) : m \in 1..Min(n, mm)}

\* layouts: [ny, nx, pieces in row-major order]; "out of order" variants reverse the files
Layouts == { [ny |-> ny, nx |-> nx, py |-> cy, px |-> cx, rev |-> rv] :
             ny \in 1..MaxN, nx \in {MaxN}, cy \in AllCuts(MaxN, 2) \cup AllCuts(1, 1) \cup AllCuts(2, 2),
             cx \in AllCuts(MaxN, 3), rv \in BOOLEAN }
GoodLayouts == { l \in Layouts : l.py[Len(l.py)][2] = l.ny - 1 }

Pieces(l) == LET s == [q \in 1..(Len(l.py) * Len(l.px)) |->
                        [y |-> l.py[((q - 1) \div Len(l.px)) + 1], x |-> l.px[((q - 1) % Len(l.px)) + 1]]]
             IN IF l.rev THEN [q \in 1..Len(s) |-> s[Len(s) + 1 - q]] ELSE s

\* dims: 1 time(record) 2 y 3 x 4 z ; vars: x, y (coordinates), time, a(time,y,x), b(y,x), g(z), h(time)
Vars == << [d |-> <<3>>, coord |-> TRUE,  mv |-> 0, zero |-> -1],
           [d |-> <<2>>, coord |-> TRUE,  mv |-> 0, zero |-> -1],
           [d |-> <<1>>, coord |-> TRUE,  mv |-> 0, zero |-> -1],
           [d |-> <<1, 2, 3>>, coord |-> FALSE, mv |-> -9, zero |-> -1],
           [d |-> <<2, 3>>, coord |-> FALSE, mv |-> 0, zero |-> -1],
           [d |-> <<4>>, coord |-> FALSE, mv |-> -9, zero |-> -1],
           [d |-> <<1, 4>>, coord |-> FALSE, mv |-> 0, zero |-> -1] >>

DataOf(k, p, nrec) ==
  LET ny == p.y[2] - p.y[1] + 1
      nx == p.x[2] - p.x[1] + 1
      base == 1000 * k
  IN  << [i \in 1..nx |-> base + 100 + i], [i \in 1..ny |-> base + 200 + i], [i \in 1..nrec |-> base + 300 + i],
         [i \in 1..(nrec * ny * nx) |-> base + 400 + i], [i \in 1..(ny * nx) |-> base + 500 + i],
         [i \in 1..2 |-> base + 600 + i], [i \in 1..(2 * nrec) |-> base + 700 + i] >>

Dims(l) == << [rec |-> TRUE, dec |-> FALSE, full |-> 0], [rec |-> FALSE, dec |-> TRUE, full |-> l.ny],
              [rec |-> FALSE, dec |-> TRUE, full |-> l.nx], [rec |-> FALSE, dec |-> FALSE, full |-> 2] >>

Mk(l, nrec, k, miss, absent, damaged, badrec, force, mode, remove) ==
  LET ps == Pieces(l) IN
  [ dims |-> Dims(l), vars |-> Vars, miss |-> miss, k |-> k, force |-> force, mode |-> mode, remove |-> remove,
    outexists |-> FALSE, numfiles |-> Len(ps),
    files |-> [q \in 1..Len(ps) |->
                 [present |-> q # absent, sound |-> q # damaged,
                  nrec |-> IF q = badrec THEN nrec + 1 ELSE nrec,
                  lo |-> <<0, ps[q].y[1], ps[q].x[1], 0>>, hi |-> <<0, ps[q].y[2], ps[q].x[2], 1>>,
                  x |-> DataOf(q, ps[q], IF q = badrec THEN nrec + 1 ELSE nrec)] ] ]

\* every layout, sound sets
CfgA == { Mk(l, n, k, m, 0, 0, 0, FALSE, "set", TRUE) :
          l \in GoodLayouts, n \in 0..MaxRec, k \in 0..MaxRec, m \in {FALSE} }
\* troubled sets
Some == { l \in GoodLayouts : l.ny = 2 /\ Len(l.px) = 2 /\ Len(l.py) = 2 }
CfgB == { Mk(l, n, k, m, a, d, b, fo, mo, TRUE) :
          l \in {CHOOSE x \in Some : TRUE}, n \in {1, 2}, k \in {0, 1}, m \in BOOLEAN, a \in 0..4, d \in {0},
          b \in {0}, fo \in BOOLEAN, mo \in {"set", "range", "list"} }
        \cup
        { Mk(l, n, 1, FALSE, 0, d, b, TRUE, mo, TRUE) :
          l \in {CHOOSE x \in Some : TRUE}, n \in {1, 2}, d \in {0, 1, 2, 4},
          b \in {0, 1, 2}, mo \in {"set", "range", "list"} }
CfgC == { [Mk(CHOOSE x \in Some : TRUE, 2, 1, FALSE, 0, 0, 0, FALSE, "set", r) EXCEPT !.outexists = e, !.numfiles = nf] :
          r \in BOOLEAN, e \in BOOLEAN, nf \in {0, 3, 4} }
\* masked domains: sets with a piece the decomposition leaves out
Drop(c, q) == [c EXCEPT !.files = [k \in 1..(Len(c.files) - 1) |-> IF k < q THEN c.files[k] ELSE c.files[k + 1]], !.numfiles = Len(c.files) - 1]
CfgH == { Drop(Mk(l, n, k, m, 0, 0, 0, FALSE, mo, TRUE), q) :
          l \in {x \in GoodLayouts : x.ny = 2 /\ Len(x.px) * Len(x.py) > 1}, n \in 1..MaxRec, k \in {0, 1}, m \in BOOLEAN, mo \in {"set", "list"}, q \in {1, 2} }
MCCfgs == CfgA \cup CfgB \cup CfgC \cup CfgH

\* export: each configuration in abstract form, for replay into the tool
Slim(c) == [k |-> c.k, miss |-> c.miss, force |-> c.force, mode |-> c.mode, remove |-> c.remove, outexists |-> c.outexists,
            numfiles |-> c.numfiles, ny |-> c.dims[2].full, nx |-> c.dims[3].full,
            files |-> [q \in 1..Len(c.files) |-> [present |-> c.files[q].present, sound |-> c.files[q].sound,
                        nrec |-> c.files[q].nrec, lo |-> c.files[q].lo, hi |-> c.files[q].hi]]]
ASSUME Emit => \A c \in MCCfgs : PrintT("CASE|" \o ToJson(Slim(c)))
GenNext == FALSE /\ UNCHANGED vars
=============================================================================
