------------------------------ MODULE TransMC ------------------------------
(* Every short gate program on two qubits. The specified effect keeps the group a full commuting group; the textbook expansion of
   every gate is accepted as an implementation of it, and the expansions of different gates are told apart.                     *)
EXTENDS TransSpec, Json, IOUtils
Num(s) == CHOOSE k \in 0..100000 : ToString(k) = s
Depth == Num(IOEnv.MCDEPTH)
Every == Num(IOEnv.MCEVERY)
Q == 0..1
B(g, q) == [g |-> g, q |-> q]
Two(g, c, ct, ap) == [g |-> g, c |-> c, q |-> 1 - c, ct |-> ct, ap |-> ap]
Gates == {B(g, q) : g \in {"x", "y", "z", "h", "s", "sdg", "t", "tdg"}, q \in Q}
         \cup {Two(g, c, ct, ap) : g \in {"cx", "cz"}, c \in Q, ct \in {"CF", "TF", "BELL"}, ap \in {"D", "C", "T"}}
         \cup {[g |-> "reset", q |-> q, reg |-> "q"] : q \in Q} \cup {[g |-> "rz", q |-> 0, n |-> 1, d |-> d, neg |-> FALSE] : d \in {1, 2, 4, 8}}
VARIABLES h, S
vars == <<h, S>>
Core == <<0, 1>>
Init == h = <<>> /\ S = Start(Core).S
NT == Cardinality({k \in DOMAIN h : IsT(h[k])})
Next == Len(h) < Depth /\ \E g \in Gates : Clifford(g) # "none" /\ h' = Append(h, g) /\ S' = Ideal(S, g, NT)
Spec == Init /\ [][Next]_vars
Full == /\ Cardinality(Support(S)) <= Len(S) /\ \A i, j \in DOMAIN S : Commute(S[i], S[j])
\* textbook expansions
I0(k) == [k |-> k, w |-> -1, cl |-> <<>>]
Op(o, t) == [k |-> "op", op |-> o, t |-> t, dag |-> FALSE, w |-> -1, cl |-> <<>>]
MPM(a, b, p) == [k |-> "mpm", obs |-> << <<a, p>>, <<b, p>> >>, neg |-> FALSE, w |-> -1, cl |-> <<>>]
MS(t, p) == [k |-> "meas", t |-> t, p |-> p, neg |-> FALSE, w |-> -1, cl |-> <<>>]
Expand(g, a) ==
  LET cnot == IF g.ct = "BELL" THEN <<[k |-> "cnot", c |-> g.c, t |-> g.q, s1 |-> a, s2 |-> a + 1, w |-> -1, cl |-> <<>>]>>
              ELSE LET i == [k |-> "init", t |-> a, st |-> "+", pn |-> IF g.ap = "D" THEN <<>> ELSE IF g.ap = "C" THEN <<g.c, "Z">> ELSE <<g.q, "X">>, w |-> -1, cl |-> <<>>]
                   IN IF g.ct = "CF" THEN <<i, MPM(g.c, a, "Z"), MPM(a, g.q, "X"), MS(a, "Z")>> ELSE <<[i EXCEPT !.st = "0"], MPM(a, g.q, "X"), MPM(g.c, a, "Z"), MS(a, "X")>>
  IN CASE Pauli(g) -> <<Op(Upper(Clifford(g)), g.q)>>
       [] g.g = "h" -> <<Op("H", g.q)>>
       [] g.g \in {"s", "sdg"} -> <<[Op("S", g.q) EXCEPT !.dag = (g.g = "sdg")]>>
       [] Clifford(g) = "s" -> <<Op("S", g.q)>>
       [] IsT(g) -> <<[k |-> "magic", t |-> a, near |-> g.q, w |-> -1, cl |-> <<>>], MPM(a, g.q, "Z"), MS(a, "X"), Op("S", g.q)>>
       [] g.g = "cx" -> cnot
       [] g.g = "cz" -> <<Op("H", g.q)>> \o cnot \o <<Op("H", g.q)>>
       [] OTHER -> <<[k |-> "reset", t |-> g.q, w |-> -1, cl |-> <<>>]>>
O == [core |-> Core, corr |-> FALSE, local |-> FALSE, reg |-> "q"]
List == FoldLeft(LAMBDA a, k : a \o Expand(h[k], 10 + 2 * k), <<>>, [k \in 1..Len(h) |-> k])
Accepts == LET r == Implements(List, h, O) IN r.ok /\ r.g = Len(h) + 1
SameGate(a, b) == a = b \/ (Clifford(a) = Clifford(b) /\ a.q = b.q /\ ~Controlled(a) /\ (a.g \notin {"s", "sdg"} \/ b.g \notin {"s", "sdg"})) \/ (IsT(a) /\ IsT(b) /\ a.q = b.q)
Discriminates == Len(h) # 1 \/ \A g \in Gates : Clifford(g) = "none" \/ SameGate(g, h[1]) \/ {g.g, h[1].g} \in {{"s", "rz"}, {"sdg", "rz"}} \/ LET r == Implements(Expand(g, 20), h, O) IN ~(r.ok /\ r.g = 2)
                               \/ (Controlled(g) /\ g.g = h[1].g /\ {g.c, g.q} = {h[1].c, h[1].q} /\ ((g.g = "cz" /\ g.c # h[1].c) \/ (g.ct = h[1].ct /\ g.ct = "BELL" /\ g.c = h[1].c)))
Emit == Every = 0 \/ Len(h) = 0 \/ (Len(h) = Depth /\ TLCGet("distinct") % Every # 0) \/ PrintT("STATE|" \o ToJson([gates |-> h]))
=============================================================================
