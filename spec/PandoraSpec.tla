----------------------------- MODULE PandoraSpec -----------------------------
(* A circuit stored in a Pandora database: a table whose rows <<layer, type, control, target, parameter>> are inputs (layer 0) and
   gates (layers 1, 2, ... without gaps; the gates of a layer act on different qubits). What the compiler reads from it: the size of
   the register and the gates, layer by layer to the last layer, or an error that names what it does not support.              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
T == INSTANCE Text
InGate == 0  OutGate == 1  XPow == 5  YPow == 6  ZPow == 7  HPow == 8  PauliX == 9  PauliZ == 10  PauliY == 11  ResetRow == 13  Measure == 14
Cnot == 15  Cz == 16  CzPow == 17  CxPow == 18  SGate == 27  SDagger == 28  TGate == 29  TDagger == 30
Codes == 0..31
LayerOf(r) == r[1]  TypeOf(r) == r[2]  Ctl(r) == r[3]  Tgt(r) == r[4]  Par(r) == r[5]
NoTarget == -1
Qubits(r) == {Ctl(r)} \cup (IF Tgt(r) = NoTarget THEN {} ELSE {Tgt(r)})

\* angles, in quarters of a half turn, by the way databases write them; other numbers are not supported
Quarters == [x \in {"1", "1.0"} |-> 4] @@ [x \in {"-1", "-1.0"} |-> -4] @@ [x \in {"0.5", "0.50", ".5"} |-> 2] @@ [x \in {"-0.5", "-0.50", "-.5"} |-> -2] @@
            [x \in {"0.25", ".25", "0.250"} |-> 1] @@ [x \in {"-0.25", "-.25"} |-> -1]
Angle(p) == IF p \in DOMAIN Quarters THEN Quarters[p] ELSE 0
PhaseGate(k) == CASE k \in {4, -4} -> "z" [] k = 2 -> "s" [] k = -2 -> "sdg" [] k = 1 -> "t" [] k = -1 -> "tdg" [] OTHER -> "none"

\* what a row denotes: a gate [g, q, c] (c = -1: no control), nothing, an error, or (open) something the documents leave open
One(g, r) == [r |-> "gate", g |-> [g |-> g, q |-> Ctl(r), c |-> NoTarget]]
Two(g, r) == [r |-> "gate", g |-> [g |-> g, q |-> Tgt(r), c |-> Ctl(r)]]
Err == [r |-> "err"]  Skip == [r |-> "skip"]  Leave == [r |-> "any"]
Denotes(r) ==
  LET k == TypeOf(r) IN
  CASE k \in {InGate, OutGate, Measure, ResetRow} -> Skip
    [] k = ZPow -> IF PhaseGate(Angle(Par(r))) = "none" THEN Err ELSE One(PhaseGate(Angle(Par(r))), r)
    [] k = HPow -> One("h", r)
    [] k = PauliX -> One("x", r)
    [] k = PauliZ -> One("z", r)
    [] k = CxPow -> Two("cx", r)
    [] k = SGate -> One("s", r)
    [] k = SDagger -> One("sdg", r)
    [] k = TGate -> One("t", r)
    [] k = TDagger -> One("tdg", r)
    \* stand-ins are used for these today (powers of X and Y, CZ); gates the library has but the reader does not know may come to be known
    [] k \in {XPow, YPow, CzPow, PauliY, Cnot, Cz} -> Leave
    [] OTHER -> Err

Size(rows) == Cardinality({i \in DOMAIN rows : TypeOf(rows[i]) = InGate})
Layer(rows, n) == {i \in DOMAIN rows : LayerOf(rows[i]) = n}
LayersOf(rows) == {LayerOf(rows[i]) : i \in DOMAIN rows}
LastLayer(rows) == IF rows = <<>> THEN 0 ELSE Max(LayersOf(rows))
Whole(rows) == /\ \A n \in 1..LastLayer(rows) : Layer(rows, n) # {}
               /\ \A i \in DOMAIN rows : (LayerOf(rows[i]) = 0) => TypeOf(rows[i]) = InGate
               /\ \A i, j \in DOMAIN rows : i # j /\ LayerOf(rows[i]) = LayerOf(rows[j]) => Qubits(rows[i]) \cap Qubits(rows[j]) = {}
Broken(rows) == {n \in 1..LastLayer(rows) : \E i \in Layer(rows, n) : Denotes(rows[i]).r = "err"}
Open(rows) == \E i \in DOMAIN rows : LayerOf(rows[i]) > 0 /\ Denotes(rows[i]).r = "any"

\* ---- reading, as a machine: the layer being handed out, what of it is still to come, what came out
VARIABLES db, at, left, got, stopped
pvars == <<db, at, left, got, stopped>>
Pending(rows, n) == {i \in Layer(rows, n) : Denotes(rows[i]).r = "gate"}
Fetch == /\ left = {} /\ ~stopped /\ at < LastLayer(db)
         /\ at' = at + 1
         /\ IF at + 1 \in Broken(db) THEN stopped' = TRUE /\ UNCHANGED left ELSE left' = Pending(db, at + 1) /\ UNCHANGED stopped
         /\ UNCHANGED <<db, got>>
Hand == \E i \in left : /\ left' = left \ {i} /\ got' = Append(got, i) /\ UNCHANGED <<db, at, stopped>>
Read == Fetch \/ Hand
Done == stopped \/ (left = {} /\ at = LastLayer(db))

\* ---- an observed list of gates, judged without the machine: it comes layer by layer, the gates of a layer in any order
RECURSIVE Upto(_, _)
Upto(rows, n) == IF n = 0 THEN 0 ELSE Upto(rows, n - 1) + Cardinality(Pending(rows, n))
Matches(rows, n, gs) == \* gs is exactly the gates of layer n
  /\ Len(gs) = Cardinality(Pending(rows, n))
  /\ {Denotes(rows[i]).g : i \in Pending(rows, n)} = ToSet(gs)
Good(rows) == IF Broken(rows) = {} THEN LastLayer(rows) ELSE Min(Broken(rows)) - 1       \* layers that are handed out whole
Complete(rows, gs) == /\ Len(gs) >= Upto(rows, Good(rows))
                      /\ \A n \in 1..Good(rows) : Matches(rows, n, SubSeq(gs, Upto(rows, n - 1) + 1, Upto(rows, n)))
\* beyond them, at most some gates of the layer with the error
Surplus(rows, gs) == SubSeq(gs, Upto(rows, Good(rows)) + 1, Len(gs))
Allowed(rows, gs) == \/ Surplus(rows, gs) = <<>>
                     \/ Broken(rows) # {} /\ ToSet(Surplus(rows, gs)) \subseteq {Denotes(rows[i]).g : i \in Pending(rows, Good(rows) + 1)} /\ Len(Surplus(rows, gs)) <= Cardinality(Pending(rows, Good(rows) + 1))
\* the error says which type, or which angle, is not supported
Offending(rows) == {i \in Layer(rows, Good(rows) + 1) : Denotes(rows[i]).r = "err"}
Says(rows, msg) == \E i \in Offending(rows) : T!Occurs(msg, IF TypeOf(rows[i]) = ZPow THEN "ngle" ELSE T!Decimal(TypeOf(rows[i])))
=============================================================================
