------------------------------ MODULE LliSpec -------------------------------
(* The text of lattice surgery instructions: what each line denotes, and what is printed for each instruction.
   A line is its words, separated by single spaces. Words beyond the operands are outside what is specified. *)
EXTENDS Integers, Text
Err == [r |-> "err"]
Ok(i) == [r |-> "ins", i |-> i]
MaxId == "4294967295"
IsId(s) == IsNumber(s) /\ FitsIn(s, MaxId)
IsPauli(s) == s \in {"I", "X", "Y", "Z"}
IsState(s) == s \in {"0", "+", "|0>", "|+>"}
StateOf(s) == IF s \in {"0", "|0>"} THEN "0" ELSE "+"
IsPair(s) == LET f == Fields(s, ":") IN Len(f) = 2 /\ IsId(f[1]) /\ IsPauli(f[2])
PairOf(s) == LET f == Fields(s, ":") IN <<ValC(f[1]), f[2]>>
IsPairs(s) == LET f == Fields(s, ",") IN \A j \in DOMAIN f : IsPair(f[j])
PairsOf(s) == LET f == Fields(s, ",") IN [j \in DOMAIN f |-> PairOf(f[j])]
IsIds(s) == LET f == Fields(s, ",") IN \A j \in DOMAIN f : IsId(f[j])
IdsOf(s) == LET f == Fields(s, ",") IN [j \in DOMAIN f |-> ValC(f[j])]
NoRepeats(q) == \A a, b \in DOMAIN q : a < b => q[a] # q[b]
Keys(q) == [j \in DOMAIN q |-> q[j][1]]

(* names, their numeric alias, and the number of operands *)
Kind(w) == CASE w = "DeclareLogicalQubitPatches" -> "decl"
             [] w \in {"Init", "0"} -> "init"
             [] w \in {"MeasureSinglePatch", "1"} -> "meas"
             [] w \in {"MultiBodyMeasure", "2"} -> "mpm"
             [] w \in {"RequestMagicState", "3"} -> "magic"
             [] w \in {"LogicalPauli", "4"} -> "pauli"
             [] w \in {"HGate", "5"} -> "H"
             [] w \in {"SGate", "6"} -> "S"
             [] w = "XGate" -> "X" [] w = "YGate" -> "Y" [] w = "ZGate" -> "Z"
             [] w \in {"RotateSingleCellPatch", "7"} -> "rot"
             [] w \in {"BellPairInit", "8"} -> "bell"
             [] w \in {"RequestYState", "9"} -> "y"
             [] w \in {"BellBasedCNOT", "10"} -> "cnot"
             [] w = "Reset" -> "reset"
             [] OTHER -> "none"
Arity(k) == CASE k \in {"decl", "mpm", "H", "S", "X", "Y", "Z", "rot", "reset"} -> 1
              [] k \in {"init", "meas", "magic", "pauli", "y"} -> 2
              [] k = "bell" -> 3
              [] k = "cnot" -> 4
              [] OTHER -> 0
Gate(id, op) == [k |-> "op", t |-> ValC(id), op |-> op, dag |-> FALSE]
Read(k, a) ==
  CASE k = "decl" -> IF IsIds(a[1]) THEN Ok([k |-> "decl", ids |-> IdsOf(a[1])]) ELSE Err
    [] k = "init" -> IF ~IsId(a[1]) \/ ~IsState(a[2]) \/ (Len(a) > 2 /\ ~IsPair(a[3])) THEN Err
                     ELSE Ok([k |-> "init", t |-> ValC(a[1]), st |-> StateOf(a[2]), pn |-> IF Len(a) > 2 THEN PairOf(a[3]) ELSE <<>>])
    [] k = "meas" -> IF IsId(a[1]) /\ IsPauli(a[2]) THEN Ok([k |-> "meas", t |-> ValC(a[1]), p |-> a[2], neg |-> FALSE]) ELSE Err
    [] k = "mpm" -> IF IsPairs(a[1]) THEN Ok([k |-> "mpm", obs |-> PairsOf(a[1]), neg |-> FALSE]) ELSE Err
    [] k = "magic" -> IF IsId(a[1]) /\ IsId(a[2]) THEN Ok([k |-> "magic", t |-> ValC(a[1]), near |-> ValC(a[2])]) ELSE Err
    [] k = "pauli" -> IF IsId(a[1]) /\ IsPauli(a[2]) /\ a[2] # "I" THEN Ok(Gate(a[1], a[2])) ELSE Err
    [] k \in {"H", "S", "X", "Y", "Z"} -> IF IsId(a[1]) THEN Ok(Gate(a[1], k)) ELSE Err
    [] k = "rot" -> IF IsId(a[1]) THEN Ok([k |-> "rot", t |-> ValC(a[1])]) ELSE Err
    [] k = "reset" -> IF IsId(a[1]) THEN Ok([k |-> "reset", t |-> ValC(a[1])]) ELSE Err
    [] k = "bell" -> IF IsId(a[1]) /\ IsId(a[2]) /\ IsPairs(a[3]) /\ Len(Fields(a[3], ",")) = 2
                     THEN Ok([k |-> "bell", s1 |-> ValC(a[1]), s2 |-> ValC(a[2]), l1 |-> PairsOf(a[3])[1], l2 |-> PairsOf(a[3])[2]]) ELSE Err
    [] k = "y" -> IF IsId(a[1]) /\ IsId(a[2]) THEN Ok([k |-> "y", t |-> ValC(a[1]), near |-> ValC(a[2])]) ELSE Err
    [] k = "cnot" -> IF \A j \in 1..4 : IsId(a[j]) THEN Ok([k |-> "cnot", c |-> ValC(a[1]), t |-> ValC(a[2]), s1 |-> ValC(a[3]), s2 |-> ValC(a[4])]) ELSE Err
Denotes(line) ==
  LET w == Fields(line, " ") k == Kind(w[1]) IN
  IF k = "none" \/ Len(w) - 1 < Arity(k) THEN Err ELSE Read(k, Tail(w))
(* what the text does not settle: more operands than the instruction has, a list without entries or naming a patch twice *)
Unsettled(line) ==
  LET w == Fields(line, " ") k == Kind(w[1]) IN
  /\ k # "none" /\ Len(w) - 1 >= Arity(k)
  /\ \/ Len(w) - 1 > Arity(k) + (IF k = "init" THEN 1 ELSE 0)
     \/ k \in {"decl", "mpm"} /\ w[2] = ""
     \/ k = "decl" /\ IsIds(w[2]) /\ ~NoRepeats(IdsOf(w[2]))
     \/ k = "mpm" /\ IsPairs(w[2]) /\ ~NoRepeats(Keys(PairsOf(w[2])))

(* printing *)
Id(n) == Decimal(n)
PairText(p) == Id(p[1]) \o ":" \o p[2]
CellText(c) == "(" \o Decimal(c[1] - 1) \o "," \o Decimal(c[2] - 1) \o ")"
Local(k) == CASE k = "prepy" -> "PrepareY" [] k = "bprep" -> "BellPrepare" [] k = "bmeas" -> "BellMeasure" [] k = "tmeas" -> "TwoPatchMeasure"
              [] k = "split" -> "ExtendSplit" [] k = "merge" -> "MergeContract" [] OTHER -> "Move"
LocalText(o) == Local(o.k) \o " " \o CellText(o.a) \o (IF o.b = <<>> THEN "" ELSE "," \o CellText(o.b))
RECURSIVE CellsText(_, _)
CellsText(q, j) == IF j > Len(q) THEN "" ELSE CellText(<<q[j][1], q[j][2]>>) \o "," \o CellsText(q, j + 1)
Sign(neg) == IF neg THEN "-" ELSE ""
StateText(s) == IF s = "0" THEN "|0>" ELSE "|+>"
Shown(i) ==
  CASE i.k = "decl" -> "DeclareLogicalQubitPatches " \o JoinWith([j \in DOMAIN i.ids |-> Id(i.ids[j])], ",")
    [] i.k = "meas" -> "MeasureSinglePatch " \o Id(i.t) \o " " \o Sign(i.neg) \o i.p
    [] i.k = "mpm" -> "MultiBodyMeasure " \o Sign(i.neg) \o JoinWith([j \in DOMAIN i.obs |-> PairText(i.obs[j])], ",")
    [] i.k = "init" -> "Init " \o Id(i.t) \o " " \o StateText(i.st) \o (IF i.pn = <<>> THEN "" ELSE " " \o PairText(i.pn))
    [] i.k = "bell" -> "BellPairInit " \o Id(i.s1) \o " " \o Id(i.s2) \o " " \o PairText(i.l1) \o "," \o PairText(i.l2)
    [] i.k = "magic" -> "RequestMagicState " \o Id(i.t) \o " " \o Id(i.near)
    [] i.k = "y" -> "RequestYState " \o Id(i.t) \o " " \o Id(i.near)
    [] i.k = "op" -> i.op \o "Gate " \o Id(i.t)
    [] i.k = "rot" -> "RotateSingleCellPatch " \o Id(i.t)
    [] i.k = "cnot" -> "BellBasedCNOT " \o Id(i.c) \o " " \o Id(i.t) \o " " \o Id(i.s1) \o " " \o Id(i.s2)
    [] i.k = "reset" -> "Reset " \o Id(i.t)
    [] i.k = "busy" -> "BusyRegion " \o CellsText(i.reg, 1) \o "StepsToClear(" \o Decimal(i.steps) \o ")"
    [] OTHER -> "?"
(* the subset that can be read back: no sign and no dagger, which the syntax cannot express *)
Readable(i) == CASE i.k \in {"meas", "mpm"} -> ~i.neg [] i.k = "op" -> ~i.dag [] OTHER -> i.k # "busy"
(* an instruction without what the text does not carry *)
Core(i) == CASE i.k = "decl" -> [k |-> i.k, ids |-> i.ids]
             [] i.k = "meas" -> [k |-> i.k, t |-> i.t, p |-> i.p, neg |-> i.neg]
             [] i.k = "mpm" -> [k |-> i.k, obs |-> i.obs, neg |-> i.neg]
             [] i.k = "init" -> [k |-> i.k, t |-> i.t, st |-> i.st, pn |-> i.pn]
             [] i.k = "bell" -> [k |-> i.k, s1 |-> i.s1, s2 |-> i.s2, l1 |-> i.l1, l2 |-> i.l2]
             [] i.k \in {"magic", "y"} -> [k |-> i.k, t |-> i.t, near |-> i.near]
             [] i.k = "op" -> [k |-> i.k, t |-> i.t, op |-> i.op, dag |-> i.dag]
             [] i.k \in {"rot", "reset"} -> [k |-> i.k, t |-> i.t]
             [] i.k = "cnot" -> [k |-> i.k, c |-> i.c, t |-> i.t, s1 |-> i.s1, s2 |-> i.s2]
             [] OTHER -> [k |-> i.k]
=============================================================================
