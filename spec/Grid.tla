-------------------------------- MODULE Grid --------------------------------
(* The lattice of surface-code cells and the patches on it: the vocabulary shared by every module.
   A grid is a sequence of rows; a cell <<r,c>> is 1-based; an empty cell is <<>>; an occupied cell is the tuple
     <<type, activity, id, top, bottom, left, right, opid>>        (id, opid = -1: none)
   A side is 2*style + (1 if active).                                                                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

\* patch types
TDist == 0  TPrep == 1  TQubit == 2  TRoute == 3  TDead == 4
\* activities
ANone == 0  AMeas == 1  AUnit == 2  ADist == 3  ADead == 4  AMpm == 5  ARot == 6  AEdpc == 7  AResv == 8
\* side styles
BNone == 0  BConn == 1  BRough == 2  BSmooth == 3  BLab1 == 4  BLab2 == 5
Joined == 3                                  \* Connected and active
Wild == -2                                   \* a side whose value is not constrained

NoPatch == <<>>
Rows(g) == Len(g)
Cols(g) == Len(g[1])
In(g, c) == c[1] >= 1 /\ c[1] <= Rows(g) /\ c[2] >= 1 /\ c[2] <= Cols(g)
Cells(g) == (1..Rows(g)) \X (1..Cols(g))
At(g, c) == g[c[1]][c[2]]
Put(g, c, p) == [g EXCEPT ![c[1]][c[2]] = p]
Free(g, c) == At(g, c) = NoPatch

Type(p) == p[1]
Act(p) == p[2]
Id(p) == p[3]
Side(p, d) == p[3 + d]                       \* d: 1 top, 2 bottom, 3 left, 4 right
OpId(p) == p[8]
Style(b) == b \div 2
Active(b) == b % 2 = 1
IsActive(p) == p[2] # ANone \/ p[4] % 2 = 1 \/ p[5] % 2 = 1 \/ p[6] % 2 = 1 \/ p[7] % 2 = 1

\* Standard square patch: smooth (Z) sides on top and bottom, rough (X) sides left and right.
Square(type, id) == <<type, ANone, id, 6, 6, 4, 4, -1>>
AllConnected(type, act) == <<type, act, -1, 2, 2, 2, 2, -1>>

Step(c, d) == IF d = 1 THEN <<c[1]-1, c[2]>> ELSE IF d = 2 THEN <<c[1]+1, c[2]>> ELSE IF d = 3 THEN <<c[1], c[2]-1>> ELSE <<c[1], c[2]+1>>
Opp(d) == IF d = 1 THEN 2 ELSE IF d = 2 THEN 1 ELSE IF d = 3 THEN 4 ELSE 3
Adjacent(a, b) == (a[1] = b[1] /\ (a[2] = b[2] + 1 \/ b[2] = a[2] + 1)) \/ (a[2] = b[2] /\ (a[1] = b[1] + 1 \/ b[1] = a[1] + 1))
DirTo(a, b) == IF b[1] < a[1] THEN 1 ELSE IF b[1] > a[1] THEN 2 ELSE IF b[2] < a[2] THEN 3 ELSE 4     \* a, b adjacent
Nbrs(g, c) == {n \in {Step(c, 1), Step(c, 2), Step(c, 3), Step(c, 4)} : In(g, n)}
SetSide(p, d, b) == [p EXCEPT ![3 + d] = b]
Activate(p, d) == [p EXCEPT ![3 + d] = 2 * (@ \div 2) + 1]
ActivateAt(g, a, b) == [g EXCEPT ![a[1]][a[2]] = Activate(@, DirTo(a, b))]        \* the side of a's patch that faces b
ActivateBoth(g, a, b) == ActivateAt(ActivateAt(g, a, b), b, a)

\* A quarter turn of the sides.
Turn(p) == <<p[1], p[2], p[3], p[6], p[7], p[5], p[4], p[8]>>    \* top:=left, bottom:=old right, left:=bottom, right:=top

CellsOf(g, id) == {c \in Cells(g) : At(g, c) # NoPatch /\ At(g, c)[3] = id}
HasId(g, id) == \E r \in 1..Rows(g) : \E c \in 1..Cols(g) : g[r][c] # NoPatch /\ g[r][c][3] = id
CellOf(g, id) == CHOOSE c \in CellsOf(g, id) : TRUE
Ids(g) == {At(g, c)[3] : c \in {x \in Cells(g) : At(g, x) # NoPatch}} \ {-1}
FreeCells(g) == {c \in Cells(g) : At(g, c) = NoPatch}

\* Which side style carries an operator: X on rough sides, Z on smooth sides.
StyleFor(op) == IF op = "X" THEN BRough ELSE IF op = "Z" THEN BSmooth ELSE -1
Faces(g, a, b, op) == Style(Side(At(g, a), DirTo(a, b))) = StyleFor(op)           \* a's side towards the adjacent b carries op
Abs(x) == IF x < 0 THEN -x ELSE x
L1(a, b) == Abs(a[1] - b[1]) + Abs(a[2] - b[2])
ToSetC(s) == {s[i] : i \in DOMAIN s}
=============================================================================
