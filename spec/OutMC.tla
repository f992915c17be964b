------------------------------- MODULE OutMC --------------------------------
(* Every kind of cell next to every other kind: what is shown tells apart what it has to tell apart. *)
EXTENDS OutSpec, Json, IOUtils
Num(s) == CHOOSE k \in 0..100000 : ToString(k) = s
Every == Num(IOEnv.MCEVERY)
VARIABLES p
Sides == 0..11
Init == p \in ({<<>>} \cup {<<t, a, i, 6, 6, 4, 4, o>> : t \in 0..4, a \in 0..8, i \in {-1, 0, 12}, o \in {-1, 3}})
Next == /\ p # <<>> /\ SubSeq(p, 4, 7) = <<6, 6, 4, 4>>
        /\ \E d \in 1..4, b \in Sides : p' = [p EXCEPT ![3 + d] = b] \/ (p[3] = 12 /\ \E d2 \in 1..4, b2 \in {0, 3, 5, 7} : p' = [p EXCEPT ![3 + d] = b, ![3 + d2] = b2])
Spec == Init /\ [][Next]_p
\* rough, smooth and joined sides are told apart, and so is whether a side of a patch is being used
Telling == p = <<>> \/ \A d \in 1..4 : LET b == p[3 + d] IN
  /\ (Style(b) \in {BRough, BSmooth}) => {x \in 0..7 : Look(x) = Look(b)} = {b}
  /\ (Look(b) = "AncillaJoin") <=> (b = Joined)
  /\ ~Active(b) /\ Style(b) \notin {BRough, BSmooth} => Look(b) = "None"
Kinds == p = <<>> \/ (Kind(p) = "Qubit" <=> p[1] = TQubit)
\* each cell is counted once: adding p to a lattice changes exactly one of unused, distillation, dead and the remainder, by one
G0 == <<<<Square(TQubit, 1), NoPatch, Square(TPrep, -1), AllConnected(TDist, ADist), <<>>>>>>
Once == \A resv \in BOOLEAN :
  LET a == Volumes(G0, resv) b == Volumes(<<<<G0[1][1], G0[1][2], G0[1][3], G0[1][4], p>>>>, resv)
  IN /\ b[1] = a[1] /\ Other(b) >= 0
     /\ IF p = <<>> THEN b = a ELSE b[2] = a[2] - 1 /\ (b[3] - a[3]) + (b[4] - a[4]) + (Other(b) - Other(a)) = 1 /\ {b[3] - a[3], b[4] - a[4], Other(b) - Other(a)} = {0, 1}
Emit == Every = 0 \/ PrintT("STATE|" \o ToJson([p |-> p]))
=============================================================================
