----------------------------- MODULE Restarts -----------------------------
(* combine_restarts: every set of pieces <stem>.dddd in a directory whose     *)
(* stem has the word res or nc becomes one file <stem>, set after set in the  *)
(* order of the names; and iceberg_comb.sh, the combination of iceberg        *)
(* restarts, on its own.                                                      *)
EXTENDS NcFile

CONSTANTS Cfgs
VARIABLES cfg,
          pc,    \* start, work, done
          g,     \* next set
          dir,   \* file name -> content: "same" (as it was), "comb" (combination of its pieces), "any"
          out,   \* iceberg_comb: [rec (records of the output), nfs]
          rc
vars == <<cfg, pc, g, dir, out, rc>>
C == cfg

\* ---- iceberg_comb ----------------------------------------------------------------------
\* an input: [here, nc (a netCDF file), major, minor (-1: no such attribute), nfs (-1: none), rec (sequence of record tokens)]
IsIce(f) == /\ f.nc /\ f.nfs > 0
            /\ (f.major > 0 \/ (f.major = 0 /\ f.minor >= 1))
IceOK == /\ Len(C.ins) >= 2
         /\ \A k \in 1..Len(C.ins) : C.ins[k].here /\ IsIce(C.ins[k]) /\ C.ins[k].nfs = Len(C.ins)
         /\ ~C.outexists
RECURSIVE Concat(_, _)
Concat(ins, k) == IF k > Len(ins) THEN <<>> ELSE ins[k].rec \o Concat(ins, k + 1)

\* ---- combine_restarts ------------------------------------------------------------------
\* a set: [stem, pieces (names, ascending), kind: land / ice / mpp, sound (its tool can combine it), outexists]
Sets == C.sets
Fails(s) == ~s.sound \/ (s.kind = "ice" /\ s.outexists)
Names == {C.names[k] : k \in 1..Len(C.names)}

Init == /\ cfg \in Cfgs /\ pc = "start" /\ g = 1 /\ rc = -1 /\ out = [rec |-> <<>>, made |-> FALSE]
        /\ dir = [n \in {cfg.names[k] : k \in 1..Len(cfg.names)} |-> "same"]
With(d, n, c) == [m \in (DOMAIN d) \cup {n} |-> IF m = n THEN c ELSE d[m]]
Without(d, S) == [m \in (DOMAIN d) \ S |-> d[m]]
Ice == /\ pc = "start" /\ C.op = "iceberg" /\ pc' = "done" /\ UNCHANGED <<cfg, g, dir>>
       /\ rc' = IF IceOK THEN 0 ELSE 1
       /\ out' = IF IceOK THEN [rec |-> Concat(C.ins, 1), made |-> TRUE] ELSE out
Check == /\ pc = "start" /\ C.op = "check" /\ pc' = "done" /\ UNCHANGED <<cfg, g, dir, out>>
         /\ rc' = IF ~C.ins[1].here THEN 1 ELSE IF IsIce(C.ins[1]) THEN 0 ELSE 255
Begin == pc = "start" /\ C.op = "restarts" /\ pc' = "work" /\ UNCHANGED <<cfg, g, dir, out, rc>>
Dry == pc = "work" /\ C.dry /\ g <= Len(Sets) /\ g' = g + 1 /\ UNCHANGED <<cfg, pc, dir, out, rc>>
Combine == /\ pc = "work" /\ ~C.dry /\ g <= Len(Sets) /\ UNCHANGED <<cfg, out>>
           /\ LET s == Sets[g] IN
              IF Fails(s)
              THEN /\ pc' = "done" /\ rc' = 1 /\ UNCHANGED g
                   \* the inputs stay; an existing output survives where the tool refuses to overwrite it
                   /\ dir' = IF s.kind = "ice" /\ s.outexists THEN dir ELSE With(dir, s.stem, "any")
              ELSE /\ g' = g + 1 /\ UNCHANGED <<pc, rc>>
                   /\ LET d == With(dir, s.stem, "comb")
                      IN  dir' = IF C.remove THEN Without(d, Range(s.pieces)) ELSE d
End == pc = "work" /\ g = Len(Sets) + 1 /\ pc' = "done" /\ rc' = 0 /\ UNCHANGED <<cfg, g, dir, out>>
Next == Ice \/ Check \/ Begin \/ Dry \/ Combine \/ End

\* ---- properties ------------------------------------------------------------------------
TypeOK == pc \in {"start", "work", "done"} /\ rc \in {-1, 0, 1, 255}
\* a piece is only ever gone when its combination is there
NothingLost == \A k \in 1..Len(Sets) : \A q \in 1..Len(Sets[k].pieces) :
    Sets[k].pieces[q] \notin DOMAIN dir => (C.remove /\ ~C.dry /\ Sets[k].stem \in DOMAIN dir /\ dir[Sets[k].stem] = "comb")
AllOrError == (pc = "done" /\ C.op = "restarts" /\ ~C.dry) =>
    (rc = 0) = (\A k \in 1..Len(Sets) : Sets[k].stem \in DOMAIN dir /\ dir[Sets[k].stem] = "comb")
DryTouchesNothing == C.dry => dir = [n \in Names |-> "same"]
OthersStay == \A n \in Names : (\A k \in 1..Len(Sets) : n # Sets[k].stem /\ n \notin Range(Sets[k].pieces)) => n \in DOMAIN dir /\ dir[n] = "same"
IceKeepsAll == (out.made) => Len(out.rec) = Sum([k \in 1..Len(C.ins) |-> Len(C.ins[k].rec)])
=============================================================================
