----------------------------- MODULE MppCombine -----------------------------
(* mppnccombine: joining the per-PE pieces of one decomposed file.            *)
(*                                                                            *)
(* The state machine follows the tool: create the output, then for every      *)
(* block of bf records read every input file (non-decomposed variables go     *)
(* straight to the output, decomposed ones into a full-size buffer), flush    *)
(* the buffers of the block, close, and only then remove inputs.  A write can *)
(* fail and the process can be killed between any two steps.                  *)
EXTENDS NcFile

CONSTANTS Cfgs,      \* set of configurations
          Faults     \* BOOLEAN: explore write failures and kills

VARIABLES cfg,       \* the configuration: options and input files
          pc,        \* start, read, flush, close, remove, done, dead
          block, f,  \* block and file being processed
          nrecs, bf, \* records of the set, effective blocking factor
          buf,       \* [slot -> [var -> cells or <<>>]] buffers of the block
          out,       \* [var -> cells] contents given to the output file
          ondisk,    \* the output file exists (created by this run)
          closed,    \* the output was closed without error
          inerr, outerr,
          removed,   \* input files removed
          opened,    \* input files whose contents were taken
          cnt,       \* files processed so far in this block (readable or not)
          defn,      \* structure of the output: no, yes, never (its first file was unreadable)
          vague,     \* the set is inconsistent: contents of the output unspecified
          rc         \* exit status, -1 while running

vars == <<cfg, pc, block, f, nrecs, bf, buf, out, ondisk, closed, inerr, outerr, removed, opened, cnt, defn, vague, rc>>

C == cfg
NF == Len(C.files)
NV == Len(C.vars)
MAXBF == 100
UNSET == 0          \* never a token

\* ---- shapes -----------------------------------------------------------------
IsRec(v) == Len(C.vars[v].d) > 0 /\ C.dims[C.vars[v].d[1]].rec
Space(v) == IF IsRec(v) THEN Tail(C.vars[v].d) ELSE C.vars[v].d
IsDec(v) == \E j \in 1..Len(C.vars[v].d) : C.dims[C.vars[v].d[j]].dec
FullShape(v) == TLCEval([j \in 1..Len(Space(v)) |-> C.dims[Space(v)[j]].full])
PieceShape(k, v) == TLCEval([j \in 1..Len(Space(v)) |-> C.files[k].hi[Space(v)[j]] - C.files[k].lo[Space(v)[j]] + 1])
PieceLo(k, v) == TLCEval([j \in 1..Len(Space(v)) |-> C.files[k].lo[Space(v)[j]]])
RecSize(v) == Prod(FullShape(v))
FillOf(v) == IF C.miss /\ C.vars[v].mv # UNSET THEN C.vars[v].mv ELSE C.vars[v].zero
\* record r (0-based) of variable v in piece k
PieceRec(k, v, r) ==
  LET n == Prod(PieceShape(k, v)) IN
  IF IsRec(v) THEN SubSeq(C.files[k].x[v], r * n + 1, (r + 1) * n) ELSE C.files[k].x[v]

HasRec == \E d \in 1..Len(C.dims) : C.dims[d].rec
FileRecs(k) == IF HasRec THEN C.files[k].nrec ELSE 1
\* how many record slots the loops visit
Loops(n) == IF n < 1 THEN 1 ELSE n
NBlocks == (Loops(nrecs) + bf - 1) \div bf
BlockLo == block * bf
BlockHi == Min((block + 1) * bf, Loops(nrecs)) - 1

Usable(k) == C.files[k].present /\ C.files[k].sound
Init ==
  /\ cfg \in Cfgs
  /\ pc = "start" /\ block = 0 /\ f = 1 /\ nrecs = -1 /\ bf = 0
  /\ buf = <<>> /\ out = <<>> /\ ondisk = FALSE /\ closed = FALSE
  /\ inerr = FALSE /\ outerr = FALSE /\ removed = {} /\ opened = {} /\ rc = -1
  /\ cnt = 0 /\ defn = "no" /\ vague = FALSE

Exit(code) == pc' = "done" /\ rc' = code

\* ---- start: an existing output file is never touched ---------------------------
Refuse ==
  /\ pc = "start" /\ C.outexists
  /\ Exit(1)
  /\ UNCHANGED <<cfg, block, f, nrecs, bf, buf, out, ondisk, closed, inerr, outerr, removed, opened, cnt, defn, vague>>

Create ==
  /\ pc = "start" /\ ~C.outexists
  /\ pc' = "read" /\ ondisk' = TRUE
  /\ out' = [v \in 1..NV |-> <<>>]
  /\ UNCHANGED <<cfg, block, f, nrecs, bf, buf, closed, inerr, outerr, removed, opened, cnt, defn, vague, rc>>

\* ---- one input file, all records of the current block -----------------------------
\* Which variables of the file are taken at record r
Taken(v, r) ==
  IF r > 0
  THEN IF C.vars[v].coord
       THEN IsRec(v) /\ cnt = 0
       ELSE IsRec(v) /\ (IsDec(v) \/ cnt = 0)
  ELSE (IsDec(v) \/ defn = "no") /\ (IsRec(v) => nrecs' > 0)

Blank(v) == Fill(RecSize(v), FillOf(v))

NewBuf(k) ==
  [s \in 0..(bf' - 1) |->
    LET r == block * bf' + s
        old == IF buf = <<>> THEN [v \in 1..NV |-> <<>>] ELSE buf[s]
    IN  [v \in 1..NV |->
          IF r < Loops(nrecs') /\ IsDec(v) /\ Taken(v, r)
          THEN Paste(IF old[v] = <<>> THEN Blank(v) ELSE old[v], FullShape(v),
                     PieceRec(k, v, r), PieceShape(k, v), PieceLo(k, v))
          ELSE old[v]]]

RECURSIVE PutRecs(_, _, _, _)
\* out[v] with record r replaced (appending when it is the next one)
PutRec(x, v, r, cells) ==
  IF ~IsRec(v) THEN cells
  ELSE LET n == RecSize(v) IN
       IF Len(x) <= r * n THEN x \o cells
       ELSE SubSeq(x, 1, r * n) \o cells \o SubSeq(x, (r + 1) * n + 1, Len(x))
PutRecs(x, v, k, r) ==
  IF r > Min((block + 1) * bf', Loops(nrecs')) - 1 THEN x
  ELSE PutRecs(IF ~IsDec(v) /\ Taken(v, r) THEN PutRec(x, v, r, PieceRec(k, v, r)) ELSE x, v, k, r + 1)

\* after a processed file (cnt' of them in this block): the set is complete, or the names are used up
Advance ==
  IF f < NF /\ ~(C.numfiles > 0 /\ cnt' = C.numfiles)
  THEN pc' = "read" /\ f' = f + 1
  ELSE pc' = "flush" /\ f' = f

Seen == \E k \in 1..(f - 1) : C.files[k].present

SkipLeading ==   \* names before the first file of a range are passed over
  /\ pc = "read" /\ ~C.files[f].present /\ C.mode = "range" /\ ~Seen
  /\ IF f < NF THEN pc' = "read" /\ f' = f + 1 /\ UNCHANGED <<rc, ondisk, out>>
     ELSE Exit(1) /\ ondisk' = FALSE /\ out' = <<>> /\ f' = f     \* no file in the range at all
  /\ UNCHANGED <<cfg, block, nrecs, bf, buf, closed, inerr, outerr, removed, opened, cnt, defn, vague>>

NoSet ==         \* no first file: nothing to combine
  /\ pc = "read" /\ ~C.files[f].present /\ C.mode = "set" /\ ~Seen
  /\ pc' = "close" /\ inerr' = TRUE
  /\ UNCHANGED <<cfg, block, f, nrecs, bf, buf, out, ondisk, closed, outerr, removed, opened, cnt, defn, vague, rc>>

Absent ==        \* a file of the set is not there
  /\ pc = "read" /\ ~C.files[f].present /\ (Seen \/ C.mode = "list")
  /\ \/ /\ ~C.force                          \* give up, leave no output
        /\ Exit(9) /\ ondisk' = FALSE /\ out' = <<>>
        /\ UNCHANGED <<cfg, block, f, nrecs, bf, buf, closed, inerr, outerr, removed, opened, cnt, defn, vague>>
     \/ /\ C.force /\ inerr' = TRUE /\ cnt' = cnt + 1
        /\ defn' = IF defn = "no" THEN "never" ELSE defn
        /\ Advance
        /\ UNCHANGED <<cfg, block, nrecs, bf, buf, out, ondisk, closed, outerr, removed, opened, vague, rc>>

Mismatch(k) == nrecs # -1 /\ FileRecs(k) # nrecs
Unreadable ==   \* present, but its contents cannot be taken (damaged, or another number of records)
  /\ pc = "read" /\ C.files[f].present
  /\ ~C.files[f].sound \/ Mismatch(f)
  /\ inerr' = TRUE /\ cnt' = cnt + 1
  /\ vague' = (vague \/ (C.files[f].sound /\ Mismatch(f)))
  /\ defn' = IF defn = "no" THEN "never" ELSE defn
  /\ Advance
  /\ UNCHANGED <<cfg, block, nrecs, bf, buf, out, ondisk, closed, outerr, removed, opened, rc>>

Take ==
  /\ pc = "read" /\ Usable(f) /\ ~Mismatch(f)
  /\ nrecs' = IF nrecs = -1 THEN FileRecs(f) ELSE nrecs
  /\ bf' = IF nrecs = -1
           THEN IF C.k >= 1 THEN Min(Min(C.k, MAXBF), Loops(nrecs')) ELSE Min(MAXBF, Loops(nrecs'))
           ELSE bf
  /\ block' = block
  /\ opened' = opened \cup {f}
  /\ cnt' = cnt + 1
  /\ defn' = IF defn = "no" THEN "yes" ELSE defn
  /\ out' = IF defn = "never" THEN out ELSE [v \in 1..NV |-> PutRecs(out[v], v, f, block * bf')]
  /\ buf' = IF defn = "never" THEN buf ELSE NewBuf(f)
  /\ Advance
  /\ UNCHANGED <<cfg, ondisk, closed, inerr, outerr, removed, vague, rc>>

RECURSIVE FlushRecs(_, _, _)
FlushRecs(x, v, r) ==
  IF r > BlockHi THEN x
  ELSE FlushRecs(IF buf # <<>> /\ buf[r - BlockLo][v] # <<>> /\ (IsRec(v) \/ r = 0)
                 THEN PutRec(x, v, r, buf[r - BlockLo][v]) ELSE x, v, r + 1)

Flush ==
  /\ pc = "flush" /\ nrecs # -1
  /\ out' = [v \in 1..NV |-> IF IsDec(v) THEN FlushRecs(out[v], v, BlockLo) ELSE out[v]]
  /\ buf' = <<>>
  /\ cnt' = 0
  /\ IF block + 1 < NBlocks THEN pc' = "read" /\ block' = block + 1 /\ f' = 1
                            ELSE pc' = "close" /\ UNCHANGED <<block, f>>
  /\ UNCHANGED <<cfg, nrecs, bf, ondisk, closed, inerr, outerr, removed, opened, defn, vague, rc>>

FlushNothing ==  \* no file could be read at all
  /\ pc = "flush" /\ nrecs = -1
  /\ pc' = "close"
  /\ UNCHANGED <<cfg, block, f, nrecs, bf, buf, out, ondisk, closed, inerr, outerr, removed, opened, cnt, defn, vague, rc>>

\* ---- the environment ---------------------------------------------------------
WriteFails ==    \* any write of the output can fail (and stay failing: no space)
  /\ Faults /\ pc \in {"read", "flush", "close"} /\ ~outerr
  /\ outerr' = TRUE
  /\ UNCHANGED <<cfg, pc, block, f, nrecs, bf, buf, out, ondisk, closed, inerr, removed, opened, cnt, defn, vague, rc>>
Killed ==
  /\ Faults /\ pc \notin {"done", "dead"}
  /\ pc' = "dead"
  /\ UNCHANGED <<cfg, block, f, nrecs, bf, buf, out, ondisk, closed, inerr, outerr, removed, opened, cnt, defn, vague, rc>>

\* ---- the end --------------------------------------------------------------------
Close ==
  /\ pc = "close"
  /\ IF inerr \/ outerr
     THEN Exit(1) /\ closed' = FALSE
     ELSE closed' = TRUE /\ IF C.remove THEN pc' = "remove" /\ rc' = rc ELSE Exit(0)
  /\ UNCHANGED <<cfg, block, f, nrecs, bf, buf, out, ondisk, inerr, outerr, removed, opened, cnt, defn, vague>>

Remove ==
  /\ pc = "remove" /\ opened \ removed # {}
  /\ removed' = removed \cup {CHOOSE k \in opened \ removed : \A l \in opened \ removed : k <= l}
  /\ UNCHANGED <<cfg, pc, block, f, nrecs, bf, buf, out, ondisk, closed, inerr, outerr, opened, cnt, defn, vague, rc>>
Finish ==
  /\ pc = "remove" /\ opened \ removed = {}
  /\ Exit(0)
  /\ UNCHANGED <<cfg, block, f, nrecs, bf, buf, out, ondisk, closed, inerr, outerr, removed, opened, cnt, defn, vague>>

Next == Refuse \/ Create \/ SkipLeading \/ NoSet \/ Absent \/ Unreadable \/ Take \/ Flush \/ FlushNothing
        \/ WriteFails \/ Killed \/ Close \/ Remove \/ Finish
Spec == Init /\ [][Next]_vars

\* ---- what the set of pieces says the result is, stated without the algorithm --------
\* the pieces in file order: of two pieces holding the same cell the later one counts
Readable == {k \in 1..NF : k \in opened}
FirstRead == CHOOSE k \in Readable : \A l \in Readable : k <= l
Assembled(v) ==
  LET fs == FullShape(v)
      st == Strides(fs)
      nd == Len(fs)
      n == RecSize(v)
      recs == IF IsRec(v) THEN Max(nrecs, 0) ELSE 1
      lo == TLCEval([k \in Readable |-> PieceLo(k, v)])
      ps == TLCEval([k \in Readable |-> PieceShape(k, v)])
      pst == TLCEval([k \in Readable |-> Strides(ps[k])])
      psz == TLCEval([k \in Readable |-> Prod(ps[k])])
      In(x, k) == \A j \in 1..nd : lo[k][j] <= x[j] /\ x[j] < lo[k][j] + ps[k][j]
      Owner(x) == LET S == {k \in Readable : In(x, k)} IN
                  IF S = {} THEN 0 ELSE CHOOSE k \in S : \A l \in S : l <= k
  IN  IF ~IsDec(v) THEN SubSeq(C.files[FirstRead].x[v], 1, n * recs)
      ELSE LET own == TLCEval([q \in 1..n |-> LET x == Coords(q - 1, fs, st)
                                          k == Owner(x)
                                      IN  IF k = 0 THEN <<0, 0>>
                                          ELSE <<k, Dot([j \in 1..nd |-> x[j] - lo[k][j]], pst[k]) + 1>>])
           IN  [p \in 1..(n * recs) |->
                 LET o == own[((p - 1) % n) + 1] IN
                 IF o[1] = 0 THEN FillOf(v)
                 ELSE C.files[o[1]].x[v][((p - 1) \div n) * psz[o[1]] + o[2]]]

Whole == \A v \in 1..NV : out[v] = Assembled(v)

\* the contents are determined unless the set was inconsistent or unusable
Comparable == nrecs # -1 /\ defn = "yes" /\ ~vague
\* ---- properties ------------------------------------------------------------------
TypeOK == pc \in {"start", "read", "flush", "close", "remove", "done", "dead"} /\ removed \subseteq 1..NF
\* A run that says it succeeded produced exactly the assembled data
ExactOnSuccess == rc = 0 => (Whole /\ ondisk /\ closed)
\* Everything readable is in the output even when the exit status reports trouble with inputs
ExactWhenClosing == (pc = "close" /\ Comparable) => Whole
\* An input disappears only when the complete output is on disk
RemovalSafe == removed # {} => (closed /\ Whole /\ ~inerr /\ ~outerr)
RemovesOnlyCombined == removed \subseteq opened
NoClobber == C.outexists => (~ondisk /\ out = <<>> /\ removed = {})
ErrorsReported == (pc = "done" /\ (inerr \/ outerr \/ C.outexists)) => rc > 0
RemovedAllOnSuccess == (rc = 0 /\ C.remove) => removed = opened
=============================================================================
