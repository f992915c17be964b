----------------------------- MODULE LayoutSpec -----------------------------
(* What a layout is: the meaning of every character of a text layout, and what each generated family promises. *)
EXTENDS Grid
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitSeq == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Chars == Digits \cup {"r", "Q", "T", "D", "A", "M", "X", "Y"}

\* --- text layouts: rows is a sequence of sequences of characters
WellFormed(rows) ==
  /\ rows # <<>> /\ \A r \in DOMAIN rows : Len(rows[r]) = Len(rows[1]) /\ \A c \in DOMAIN rows[r] : rows[r][c] \in Chars
  /\ ~(\E r \in DOMAIN rows : \E c \in DOMAIN rows[r] : rows[r][c] = "M") \/ ~(\E r \in DOMAIN rows : \E c \in DOMAIN rows[r] : rows[r][c] \in Digits)

\* cells of a kind, in reading order
CellsIn(rows, ch) == FoldLeft(LAMBDA a, r : FoldLeft(LAMBDA b, c : IF rows[r][c] = ch THEN Append(b, <<r, c>>) ELSE b, a, [k \in 1..Len(rows[r]) |-> k]), <<>>, [k \in 1..Len(rows) |-> k])

RECURSIVE Grow(_, _, _)
Grow(rows, S, ch) == LET T == S \cup {n \in UNION {Nbrs(rows, c) : c \in S} : At(rows, n) = ch} IN IF T = S THEN S ELSE Grow(rows, T, ch)
\* regions: by digit, then by first cell in reading order
RegionSets(rows) ==
  FoldLeft(LAMBDA acc, d :
     FoldLeft(LAMBDA a, c : IF \E k \in DOMAIN a : c \in a[k] THEN a ELSE Append(a, Grow(rows, {c}, DigitSeq[d])), acc, CellsIn(rows, DigitSeq[d])),
     <<>>, [k \in 1..10 |-> k])
OutsOf(rows, R) == {n \in UNION {Nbrs(rows, c) : c \in R} : At(rows, n) = "r"}
\* sides of a region cell: smooth outside, nothing towards other cells of the region
RegSide(R, c, d) == IF Step(c, d) \in R THEN 0 ELSE 6
SetToSeqC(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i < j => (q[i][1] < q[j][1] \/ (q[i][1] = q[j][1] /\ q[i][2] < q[j][2]))

Parse(rows, dt, stag) ==
  LET R == RegionSets(rows) M == CellsIn(rows, "M") Q == CellsIn(rows, "Q")
      seqOf(S) == FoldLeft(LAMBDA a, r : FoldLeft(LAMBDA b, c : IF <<r, c>> \in S THEN Append(b, <<r, c>>) ELSE b, a, [k \in 1..Len(rows[1]) |-> k]), <<>>, [k \in 1..Len(rows) |-> k])
  IN [rows |-> Len(rows), cols |-> Len(rows[1]),
      core |-> [i \in DOMAIN Q |-> <<Q[i][1], Q[i][2], 6, 6, 4, 4>>],
      regs |-> [i \in DOMAIN R |-> LET q == seqOf(R[i]) IN [j \in DOMAIN q |-> <<q[j][1], q[j][2], RegSide(R[i], q[j], 1), RegSide(R[i], q[j], 2), RegSide(R[i], q[j], 3), RegSide(R[i], q[j], 4)>>]],
      outs |-> [i \in DOMAIN R |-> seqOf(OutsOf(rows, R[i]))],
      times |-> [i \in 1..(Len(R) + Len(M)) |-> IF i <= Len(R) /\ stag THEN dt + i - 1 ELSE dt],
      anc |-> CellsIn(rows, "A"), dead |-> CellsIn(rows, "X"), res |-> M, ys |-> CellsIn(rows, "Y"), resv |-> M # <<>>]

\* --- a layout against the text it was read from (order of cells inside a region is free)
SameLayout(lay, p) ==
  /\ lay.rows = p.rows /\ lay.cols = p.cols /\ lay.core = p.core
  /\ Len(lay.regs) = Len(p.regs)
  /\ lay.times = p.times /\ lay.anc = p.anc /\ lay.dead = p.dead /\ lay.res = p.res /\ lay.ys = p.ys /\ lay.resv = p.resv
RegionsMatch(lay, p) ==
  Len(lay.regs) = Len(p.regs) /\ \A i \in DOMAIN p.regs : /\ ToSetC(lay.regs[i]) = ToSetC(p.regs[i]) /\ Len(lay.regs[i]) = Len(p.regs[i])
                                                        /\ ToSetC(lay.outs[i]) = ToSetC(p.outs[i])

\* --- generated layouts
RC(x) == <<x[1], x[2]>>
CoreCells(lay) == {RC(lay.core[i]) : i \in DOMAIN lay.core}
RegCells(lay) == UNION {{RC(lay.regs[i][j]) : j \in DOMAIN lay.regs[i]} : i \in DOMAIN lay.regs}
Roles(lay) == <<CoreCells(lay), RegCells(lay), ToSetC(lay.anc), ToSetC(lay.dead), ToSetC(lay.res), ToSetC(lay.ys)>>
Board(lay) == [r \in 1..lay.rows |-> [c \in 1..lay.cols |-> 0]]
Open(lay) == Cells(Board(lay)) \ UNION {CoreCells(lay), RegCells(lay), ToSetC(lay.dead), ToSetC(lay.res), ToSetC(lay.ys)}   \* free when slicing starts
OpenN(lay, c) == Nbrs(Board(lay), c) \cap Open(lay)
OpenDirs(lay, c) == {d \in 1..4 : Step(c, d) \in Open(lay)}
RECURSIVE Flood(_, _, _)
Flood(b, S, A) == LET T == S \cup (UNION {Nbrs(b, c) : c \in S} \cap A) IN IF T = S THEN S ELSE Flood(b, T, A)
Connected(lay) == Open(lay) = {} \/ LET c == CHOOSE c \in Open(lay) : TRUE IN Flood(Board(lay), {c}, Open(lay)) = Open(lay)
=============================================================================
