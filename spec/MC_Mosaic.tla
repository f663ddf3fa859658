----------------------------- MODULE MC_Mosaic -----------------------------
EXTENDS Mosaic, Json
CONSTANTS Deep
VARIABLE told
\* a w x h block of step d at (x0, y0), its i direction turned by r quarter turns
Blk(x0, y0, w, h, d, r) ==
  LET f(i, j) == CASE r = 0 -> <<x0 + (i * d), y0 + (j * d)>> [] r = 1 -> <<(x0 + w) - (j * d), y0 + (i * d)>>
                   [] r = 2 -> <<(x0 + w) - (i * d), (y0 + h) - (j * d)>> [] r = 3 -> <<x0 + (j * d), (y0 + h) - (i * d)>>
      nx == IF r \in {0, 2} THEN (w \div d) + 1 ELSE (h \div d) + 1
      ny == IF r \in {0, 2} THEN (h \div d) + 1 ELSE (w \div d) + 1
  IN [nx |-> nx, ny |-> ny, p |-> [q \in 1..(nx * ny) |-> f((q - 1) % nx, (q - 1) \div nx)]]
Cs(ts, px, py, pl) == [tiles |-> ts, px |-> px, py |-> py, deg |-> 100, plain |-> pl]
B0 == Blk(0, 0, 4, 4, 1, 0)
Places == {<<4, 0>>, <<4, 2>>, <<0, 4>>, <<-4, 0>>, <<0, -4>>, <<4, 4>>, <<5, 0>>, <<8, 0>>, <<2, -4>>, <<-4, -2>>}
Two == {Cs(<<B0, Blk(q[1], q[2], 4, 4, d, r)>>, px, py, py = 0 /\ (px = 0 \/ (px = 8 /\ q \in {<<4, 0>>, <<-4, 0>>, <<0, 4>>}))) : <<q, d, r, px, py>> \in Places \X {1, 2} \X (0..3) \X {0, 8, 4} \X {0, 8}}
Sub == {Cs(<<B0, Blk(q[1], q[2], 2, 2, 1, 0)>>, px, 0, FALSE) : <<q, px>> \in ((0..3) \X (0..2)) \X {0, 4}} \cup {Cs(<<Blk(q[1], q[2], 2, 2, 1, 0), B0>>, 0, 0, FALSE) : q \in (0..3) \X (0..2)}
Three == {Cs(<<B0, Blk(4, 0, 4, 4, d, 0), Blk(q[1], q[2], w, 4, e, 0)>>, px, 0, px = 0 \/ (px = 8 /\ q[1] + w <= 8) \/ (px = 12 /\ q = <<8, 0>> /\ w = 4)) : <<d, q, w, e, px>> \in {1, 2} \X {<<0, 4>>, <<4, 4>>, <<8, 0>>, <<0, -4>>} \X {4, 8} \X {1, 2} \X {0, 8, 12}}
MCCfgs == Two \cup (IF Deep THEN Sub \cup Three ELSE {c \in Sub \cup Three : c.px # 12})
GENCfgs == IF Deep THEN Two \cup Sub \cup Three ELSE {c \in Two \cup Sub \cup Three : c.py = 0}
Emit == Done /\ ~told /\ PrintT("CASE|" \o ToJson([tiles |-> C.tiles, px |-> C.px, py |-> C.py])) /\ told' = TRUE /\ UNCHANGED vars
GENInit == Init /\ told = FALSE
GENNext == (Next /\ UNCHANGED told) \/ Emit
MCInit == Init /\ told = FALSE
MCNext == Next /\ UNCHANGED told
=============================================================================
