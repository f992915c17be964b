------------------------------- MODULE RouteMC ------------------------------
(* Every small lattice with two patches in every orientation and every pattern of occupied cells. On each, the breadth-first
   definition used for trace checking agrees with the existence (and least length) of a legal region; the lattices are
   printed so that the real routers can be asked the same questions.                                                    *)
EXTENDS Routing, Json, IOUtils
Num(s) == CHOOSE k \in 0..10000 : ToString(k) = s
R == Num(IOEnv.MCROWS)
C == Num(IOEnv.MCCOLS)
All == (1..R) \X (1..C)
Idx(c) == (c[1] - 1) * C + c[2]
VARIABLES a, b, oa, ob, occ
vars == <<a, b, oa, ob, occ>>
Pat(id, o) == IF o THEN Turn(Square(TQubit, id)) ELSE Square(TQubit, id)
Grid1 == [r \in 1..R |-> [c \in 1..C |-> IF <<r, c>> = a THEN Pat(0, oa) ELSE IF <<r, c>> = b THEN Pat(1, ob) ELSE IF <<r, c>> \in occ THEN AllConnected(TDead, ADead) ELSE NoPatch]]
Init == /\ a \in All /\ b \in {c \in All : Idx(c) > Idx(a)} /\ oa \in BOOLEAN /\ ob \in BOOLEAN /\ occ \in SUBSET (All \ {a, b})
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

RECURSIVE Extend(_, _, _)
\* all simple paths of free cells starting with p
Extend(g, p, k) == IF k = 0 THEN {p} ELSE {p} \cup UNION {Extend(g, Append(p, n), k - 1) : n \in {m \in Nbrs(g, p[Len(p)]) : At(g, m) = NoPatch /\ \A i \in DOMAIN p : p[i] # m}}
AllPaths(g) == {<<>>} \cup UNION {Extend(g, <<c>>, R * C) : c \in FreeCells(g)}
Ops == {"X", "Z"}
Agree ==
  IOEnv.MCAGREE # "1" \/
  LET g == Grid1 P == AllPaths(g) IN
  \A q \in ({<<a, b>>, <<b, a>>} \X Ops \X Ops) \cup ({<<a, a>>, <<b, b>>} \X {"X"} \X {"Z"}) :
     LET s == q[1][1] t == q[1][2]
         legal == {p \in P : LegalPath(g, p, s, q[2], t, q[3])}
         n == RouteLen(g, s, q[2], t, q[3])
     IN /\ (n >= 0) <=> legal # {}
        /\ n >= 0 => n = Min({Len(p) : p \in legal})
        /\ (n >= 0) <=> RouteLen(g, t, q[3], s, q[2]) >= 0                       \* the question is symmetric
Every == Num(IOEnv.MCEVERY)
Emit == Every = 0 \/ (TLCGet("distinct") % Every # 0) \/ PrintT("STATE|" \o ToJson([g |-> Grid1]))
=============================================================================
