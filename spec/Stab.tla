-------------------------------- MODULE Stab --------------------------------
(* Stabiliser semantics up to Pauli corrections: a pure state of finitely many patches is a maximal commuting group of
   Pauli operators, signs dropped. A Pauli is a pair <<xs, zs>> of the patch sets on which it acts as X and as Z.
   To compare two *operations*, every operand starts maximally entangled with a reference patch that nothing touches.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

PMul(p, q) == <<SymDiff(p[1], q[1]), SymDiff(p[2], q[2])>>
Commute(p, q) == (Cardinality(p[1] \cap q[2]) + Cardinality(p[2] \cap q[1])) % 2 = 0
PX(q) == <<{q}, {}>>  PZ(q) == <<{}, {q}>>  PY(q) == <<{q}, {q}>>
POf(q, op) == IF op = "X" THEN PX(q) ELSE IF op = "Z" THEN PZ(q) ELSE IF op = "Y" THEN PY(q) ELSE <<{}, {}>>
\* projective measurement of P on the group with generator list S
Measure(S, P) ==
  LET A == {i \in DOMAIN S : ~Commute(S[i], P)}
  IN IF A = {} THEN S
     ELSE LET k == Min(A) IN [i \in DOMAIN S |-> IF i = k THEN P ELSE IF i \in A THEN PMul(S[i], S[k]) ELSE S[i]]
\* destructive measurement of patch q in the basis of op
DropAt(S, k) == [i \in 1..(Len(S)-1) |-> IF i < k THEN S[i] ELSE S[i+1]]
On(p, q) == q \in p[1] \cup p[2]
MeasureOut(S, q, op) ==
  LET M == Measure(S, POf(q, op))                 \* now the measured operator is in the group, so some generator acts on q,
      k == Min({i \in DOMAIN M : On(M[i], q)})     \* and every generator acting on q does so by that operator
  IN DropAt([i \in DOMAIN M |-> IF i # k /\ On(M[i], q) THEN PMul(M[i], M[k]) ELSE M[i]], k)
\* remove a patch from the group by tracing it out is never needed: every auxiliary patch is measured
AddState(S, q, op) == Append(S, POf(q, op))
AddBell(S, a, b) == S \o << <<{a, b}, {}>>, <<{}, {a, b}>> >>
MapAll(S, f(_)) == [i \in DOMAIN S |-> f(S[i])]
Tog(s, q, c) == IF c THEN SymDiff(s, {q}) ELSE s
GateH(S, q) == MapAll(S, LAMBDA p : <<(p[1] \ {q}) \cup (p[2] \cap {q}), (p[2] \ {q}) \cup (p[1] \cap {q})>>)
GateS(S, q) == MapAll(S, LAMBDA p : <<p[1], Tog(p[2], q, q \in p[1])>>)
GateCX(S, c, t) == MapAll(S, LAMBDA p : <<Tog(p[1], t, c \in p[1]), Tog(p[2], c, t \in p[2])>>)
GateCZ(S, a, b) == GateH(GateCX(GateH(S, b), a, b), b)
\* two maximal groups over the same patches are equal iff they commute elementwise
SameGroup(S, T) == Len(S) = Len(T) /\ \A i \in DOMAIN S : \A j \in DOMAIN T : Commute(S[i], T[j])
Support(S) == UNION {S[i][1] \cup S[i][2] : i \in DOMAIN S}
=============================================================================
