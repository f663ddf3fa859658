----------------------------- MODULE TR_Mosaic -----------------------------
EXTENDS Mosaic, Json, IOUtils
TRCfgs == LET cs == ndJsonDeserialize(IOEnv.CASES) IN {cs[k] : k \in 1..Len(cs)}
O == C.obs
If(b, w) == IF b THEN {} ELSE {w}
G(q) == {q[k] : k \in 1..Len(q)}
Expect == {[t1 |-> c.t1, t2 |-> c.t2, b1 |-> c.b1, b2 |-> c.b2] : c \in out}
\* a contact may be stated from either of two different tiles
Flip(c) == IF c.t1 > c.t2 THEN [t1 |-> c.t2, t2 |-> c.t1, b1 |-> c.b2, b2 |-> c.b1] ELSE c
Got == {Flip(c) : c \in G(O.contacts)}
Verdict ==
  IF C.err THEN If(O.rc # 0, <<"error not reported", O.rc>>) \cup If(G(O.files) \subseteq G(C.pre) \cup {C.name}, <<"other files", O.files>>) \cup If(O.kept, <<"inputs changed">>)
  ELSE If(O.rc = 0, <<"status", O.rc>>) \cup
       (IF ~O.here THEN {<<"no mosaic file">>} ELSE
        If(G(O.files) = G(C.pre) \cup {C.name}, <<"files", O.files>>) \cup If(O.kept, <<"inputs changed">>) \cup
        If(O.tiles = C.tnames, <<"tile names", O.tiles>>) \cup If(O.tfiles = C.tfiles, <<"tile files", O.tfiles>>) \cup
        If(O.mosaic = C.mosaic, <<"mosaic name", O.mosaic>>) \cup If(O.loc = C.loc, <<"location", O.loc>>) \cup
        If(O.meta, <<"attributes">>) \cup
        If(Len(O.contacts) = Cardinality(Got), <<"repeated contact", O.contacts>>) \cup
        If(Expect \subseteq Got, <<"contacts not found", Expect \ Got>>) \cup If(Got \subseteq Expect, <<"false contacts", Got \ Expect>>))
VARIABLE told
TRInit == Init /\ told = FALSE
TRNext == \/ (Next /\ UNCHANGED told)
          \/ (Done /\ ~told /\ PrintT(<<"VERDICT", C.id, Verdict>>) /\ told' = TRUE /\ UNCHANGED vars)
View == <<C.id, pc, n, m, told>>
=============================================================================
