------------------------------ MODULE OutSpec -------------------------------
(* What is shown of a lattice: the JSON of a slice and its volume counts.
   A JSON cell is <<>> for null, otherwise <<patch_type, Top, Bottom, Left, Right, activity, operation id, text>>. *)
EXTENDS Lattice
T == INSTANCE Text
Kind(p) == CASE p[1] \in {TDist, TPrep} -> "DistillationQubit" [] p[1] = TQubit -> "Qubit" [] OTHER -> "Ancilla"
Look(b) == CASE Style(b) = BRough -> (IF Active(b) THEN "DashedStiched" ELSE "Dashed")
             [] Style(b) = BSmooth -> (IF Active(b) THEN "SolidStiched" ELSE "Solid")
             [] b = Joined -> "AncillaJoin"
             [] Style(b) = BLab1 /\ Active(b) -> "SolidStiched"
             [] Style(b) = BLab2 /\ Active(b) -> "DashedStiched"
             [] OTHER -> "None"
Shows(p) == CASE p[2] = AMeas -> "Measurement" [] p[2] = AUnit -> "Unitary" [] OTHER -> "?null"
Timer == "Time to next magic state:"
TextFits(p, t) == IF p[3] # -1 THEN t = "Id: " \o T!Decimal(p[3]) ELSE ~T!HasPrefix(t, "Id")
HasTimer(x) == x # <<>> /\ T!HasPrefix(x[8], Timer)

Total(g) == Rows(g) * Cols(g)
Count(g, P(_)) == Cardinality({c \in Cells(g) : P(At(g, c))})
Unused(g) == Count(g, LAMBDA p : p = NoPatch)
Distilling(g, resv) == Count(g, LAMBDA p : p # NoPatch /\ (p[1] = TDist \/ (resv /\ p[1] = TPrep)))
DeadCells(g) == Count(g, LAMBDA p : p # NoPatch /\ p[1] = TDead)
Volumes(g, resv) == <<Total(g), Unused(g), Distilling(g, resv), DeadCells(g)>>
Other(v) == v[1] - v[2] - v[3] - v[4]
=============================================================================
