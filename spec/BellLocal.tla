----------------------------- MODULE BellLocal ------------------------------
(* Meaning of a list of two-cell operations: the lattice cells are the patches of the stabiliser semantics.
   A long-range CNOT runs from the target cell, through free cells, to the control cell.                        *)
EXTENDS Grid, Stab

\* References of the two operands (cells are <<r,c>> with r,c >= 1, so these never collide with a cell).
RefC == <<0, 1>>
RefT == <<0, 2>>
OpCells(o) == IF o.b = <<>> THEN {o.a} ELSE {o.a, o.b}
AllCells(ops) == UNION {OpCells(ops[i]) : i \in DOMAIN ops}

\* Merging the extension of the control over a smooth side copies in Z (ZZ merge, X read-out); at the target end over a rough
\* side it is an XX merge with Z read-out. Which of the two an operation is follows from the end of the path it serves.
Sem(S, o, ctl, tgt) ==
  CASE o.k = "bprep" -> AddBell(S, o.a, o.b)
    [] o.k = "bmeas" -> MeasureOut(MeasureOut(Measure(Measure(S, <<{o.a, o.b}, {}>>), <<{}, {o.a, o.b}>>), o.a, "X"), o.b, "X")
    [] o.k = "move" -> MapAll(S, LAMBDA p : <<IF o.a \in p[1] THEN (p[1] \ {o.a}) \cup {o.b} ELSE p[1], IF o.a \in p[2] THEN (p[2] \ {o.a}) \cup {o.b} ELSE p[2]>>)
    [] o.k = "split" -> IF o.a = tgt THEN Measure(AddState(S, o.b, "Z"), <<{o.a, o.b}, {}>>) ELSE Measure(AddState(S, o.b, "X"), <<{}, {o.a, o.b}>>)
    [] o.k = "merge" -> IF o.a = tgt THEN MeasureOut(Measure(S, <<{o.a, o.b}, {}>>), o.b, "Z") ELSE MeasureOut(Measure(S, <<{}, {o.a, o.b}>>), o.b, "X")
    [] OTHER -> S

\* Each operation acts on two edge-adjacent cells, and creates patches only where there is none / consumes only existing ones.
RECURSIVE Wf(_, _, _)
Wf(ops, i, live) ==
  IF i > Len(ops) THEN [ok |-> TRUE, live |-> live]
  ELSE LET o == ops[i]
           fine == o.b # <<>> /\ Adjacent(o.a, o.b) /\
                   CASE o.k = "bprep" -> o.a \notin live /\ o.b \notin live
                     [] o.k = "bmeas" -> o.a \in live /\ o.b \in live
                     [] o.k = "move" -> o.a \in live /\ o.b \notin live
                     [] o.k = "split" -> o.a \in live /\ o.b \notin live
                     [] o.k = "merge" -> o.a \in live /\ o.b \in live
                     [] OTHER -> FALSE
           nxt == CASE o.k = "bprep" -> live \cup {o.a, o.b}
                    [] o.k = "bmeas" -> live \ {o.a, o.b}
                    [] o.k = "move" -> (live \ {o.a}) \cup {o.b}
                    [] o.k = "split" -> live \cup {o.b}
                    [] o.k = "merge" -> live \ {o.b}
                    [] OTHER -> live
       IN IF ~fine THEN [ok |-> FALSE, live |-> live] ELSE Wf(ops, i + 1, nxt)

FoldSem(S, ops, ctl, tgt) == FoldLeft(LAMBDA s, i : Sem(s, ops[i], ctl, tgt), S, [k \in 1..Len(ops) |-> k])

CnotStart(ctl, tgt) == AddBell(AddBell(<<>>, ctl, RefC), tgt, RefT)
\* the list implements CNOT(ctl -> tgt) and leaves exactly the operands
CnotListOk(ops, ctl, tgt) ==
  LET w == Wf(ops, 1, {ctl, tgt})
  IN w.ok /\ w.live = {ctl, tgt} /\ SameGroup(FoldSem(CnotStart(ctl, tgt), ops, ctl, tgt), GateCX(CnotStart(ctl, tgt), ctl, tgt))
\* the list creates a Bell pair on exactly the cells a, b
BellListOk(ops, a, b) ==
  LET w == Wf(ops, 1, {}) IN w.ok /\ w.live = {a, b} /\ SameGroup(FoldSem(<<>>, ops, <<0, 8>>, <<0, 9>>), AddBell(<<>>, a, b))

\* The cells form one simple path from tgt to ctl: ordered list of the cells strictly between them, or <<>>.
RECURSIVE Chain(_, _, _, _)
Chain(ops, acc, cur, ctl) ==
  LET nx == {c \in AllCells(ops) : c # cur /\ ~(\E i \in DOMAIN acc : acc[i] = c) /\ \E i \in DOMAIN ops : OpCells(ops[i]) = {cur, c}}
  IN IF cur = ctl THEN acc ELSE IF Cardinality(nx) # 1 THEN <<>> ELSE LET c == CHOOSE c \in nx : TRUE IN Chain(ops, Append(acc, c), c, ctl)
PathOf(ops, ctl, tgt) == LET p == Chain(ops, <<tgt>>, tgt, ctl) IN IF Len(p) < 2 THEN <<>> ELSE SubSeq(p, 2, Len(p) - 1)
=============================================================================
