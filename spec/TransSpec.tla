----------------------------- MODULE TransSpec -----------------------------
(* What a list of lattice-surgery instructions does to the logical qubits, up to Pauli corrections (module Stab), and when
   such a list implements a list of gates; what the S-substitutions and the rotation injection may do to a list.
   Every declared qubit starts entangled with a reference; a magic state is a half of a Bell pair whose other half stays
   as the input, so that its gadget is compared as "copy the magic state's diagonal onto the qubit, then S".           *)
EXTENDS Stab, TLC
Ref(q) == -1000 - q
MRef(n) == -100000 - n
SetOf(s) == {s[i] : i \in DOMAIN s}
Rng(s) == SetOf(s)

\* state of a run: group S, live auxiliary patches, every id seen, bound Y states, number of magic states so far, complaint
Start(core) == [S |-> FoldLeft(LAMBDA s, q : AddBell(s, q, Ref(q)), <<>>, core), live |-> {}, used |-> SetOf(core), y |-> {}, nm |-> 0, flip |-> {}, bad |-> ""]
Bad(st, why) == IF st.bad = "" THEN [st EXCEPT !.bad = why] ELSE st
Intro(st, ids) == IF ids \cap st.used # {} THEN Bad([st EXCEPT !.used = @ \cup ids], "an auxiliary patch re-uses an id") ELSE [st EXCEPT !.used = @ \cup ids]
Known(st, core, ids, f(_)) == IF ids \subseteq (SetOf(core) \cup st.live) THEN f(st) ELSE Bad(st, "an instruction acts on a patch that does not exist")
Turned(st, q) == [st EXCEPT !.flip = SymDiff(@, {q})]
ObsOf(i) == FoldLeft(LAMBDA p, o : PMul(p, POf(o[1], o[2])), <<{}, {}>>, i.obs)

Exec(st, core, i) ==
  CASE i.k = "op" -> Known(st, core, {i.t}, LAMBDA s : IF i.op = "H" THEN Turned([s EXCEPT !.S = GateH(@, i.t)], i.t) ELSE IF i.op = "S" THEN [s EXCEPT !.S = GateS(@, i.t)] ELSE s)
    [] i.k = "rot" -> Known(st, core, {i.t}, LAMBDA s : Turned(s, i.t))
    [] i.k = "meas" -> Known(st, core, {i.t}, LAMBDA s : [s EXCEPT !.S = MeasureOut(@, i.t, i.p), !.live = @ \ {i.t}, !.y = @ \ {i.t}])
    [] i.k = "mpm" -> Known(st, core, {i.obs[k][1] : k \in DOMAIN i.obs}, LAMBDA s : [s EXCEPT !.S = Measure(@, ObsOf(i))])
    [] i.k = "init" -> Known(Intro([st EXCEPT !.S = AddState(@, i.t, IF i.st = "+" THEN "X" ELSE "Z"), !.live = @ \cup {i.t}], {i.t}), core, IF i.pn = <<>> THEN {} ELSE {i.pn[1]}, LAMBDA s : s)
    [] i.k = "magic" -> Known(Intro([st EXCEPT !.S = AddBell(@, i.t, MRef(st.nm + 1)), !.nm = @ + 1, !.live = @ \cup {i.t}], {i.t}), core, {i.near}, LAMBDA s : s)
    [] i.k = "y" -> IF i.t \in st.y
                    THEN LET s == [st EXCEPT !.y = @ \ {i.t}, !.live = @ \ {i.t}]
                         IN IF \E k \in DOMAIN st.S : ~Commute(st.S[k], PY(i.t)) THEN Bad(s, "the state given back is not the Y state")
                            ELSE IF i.t \in st.flip THEN Bad(s, "the Y state is given back turned")
                            ELSE [s EXCEPT !.S = MeasureOut(@, i.t, "Y")]
                    ELSE Known(Intro([st EXCEPT !.S = AddState(@, i.t, "Y"), !.y = @ \cup {i.t}, !.live = @ \cup {i.t}], {i.t}), core, {i.near}, LAMBDA s : s)
    [] i.k = "cnot" -> Known(IF i.s1 = i.s2 THEN Bad(st, "the two halves of a Bell pair share an id") ELSE Intro(st, {i.s1, i.s2}), core, {i.c, i.t}, LAMBDA s : [s EXCEPT !.S = GateCX(@, i.c, i.t)])
    [] i.k = "bell" -> Intro([st EXCEPT !.S = AddBell(@, i.s1, i.s2), !.live = @ \cup {i.s1, i.s2}], {i.s1, i.s2})
    [] i.k = "reset" -> Known(st, core, {i.t}, LAMBDA s : [s EXCEPT !.S = AddState(MeasureOut(@, i.t, "Z"), i.t, "Z")])
    [] OTHER -> Bad(st, "an instruction of a kind that is never emitted for a gate")

------------------------------------------------------------------------------
(* Gates. *)
Clifford(g) == IF g.g = "rz" THEN (IF g.n = 1 /\ g.d = 1 THEN "z" ELSE IF g.n = 1 /\ g.d = 2 THEN "s" ELSE IF g.n = 1 /\ g.d = 4 THEN "t" ELSE "none") ELSE g.g
IsT(g) == Clifford(g) \in {"t", "tdg"}
Controlled(g) == g.g \in {"cx", "cz"}
GateQubits(g) == IF Controlled(g) THEN {g.c, g.q} ELSE {g.q}
Pauli(g) == Clifford(g) \in {"x", "y", "z"}
\* the group after gate g; nm: number of magic states consumed before it
Ideal(S, g, nm) ==
  LET k == Clifford(g) IN
  CASE k \in {"x", "y", "z"} -> S
    [] k = "h" -> GateH(S, g.q)
    [] k \in {"s", "sdg"} -> GateS(S, g.q)
    [] k \in {"t", "tdg"} -> GateS(MeasureOut(Measure(AddBell(S, -1, MRef(nm + 1)), <<{}, {-1, g.q}>>), -1, "X"), g.q)
    [] k = "cx" -> GateCX(S, g.c, g.q)
    [] k = "cz" -> GateCZ(S, g.c, g.q)
    [] k = "reset" -> AddState(MeasureOut(S, g.q, "Z"), g.q, "Z")
\* gates that have no instructions; o: [corr, local, reg]
Unsupported(g, o) == \/ g.g = "rz" /\ Clifford(g) = "none"
                     \/ g.g = "crz"
                     \/ g.g = "reset" /\ g.reg # o.reg
                     \/ Controlled(g) /\ o.corr /\ (o.local \/ g.ct = "BELL")

InsPatches(i) == CASE i.k \in {"op", "rot", "meas", "reset"} -> {i.t}
                   [] i.k = "mpm" -> {i.obs[k][1] : k \in DOMAIN i.obs}
                   [] i.k = "init" -> {i.t} \cup (IF i.pn = <<>> THEN {} ELSE {i.pn[1]})
                   [] i.k \in {"magic", "y"} -> {i.t, i.near}
                   [] i.k = "cnot" -> {i.c, i.t, i.s1, i.s2}
                   [] i.k = "bell" -> {i.s1, i.s2, i.l1[1], i.l2[1]}
                   [] OTHER -> {}
IsPauliOp(i) == i.k = "op" /\ i.op \in {"X", "Y", "Z"}
Upper(k) == IF k = "x" THEN "X" ELSE IF k = "y" THEN "Y" ELSE "Z"
OfKind(f, k) == SelectSeq(f, LAMBDA i : i.k = k)
\* with corrections: each of the two joint measurements is followed by the Pauli operation its outcome calls for, and there is no other
Corrections(g, f) ==
  LET at(k) == IsPauliOp(f[k]) \/ f[k].k = "mpm"
      q == SelectSeq([k \in 1..Len(f) |-> k], at)
      a == OfKind(f, "init")[1].t
      is(k, t, p) == IsPauliOp(f[k]) /\ f[k].t = t /\ f[k].op = p
  IN /\ Len(q) = 4 /\ f[q[1]].k = "mpm" /\ f[q[3]].k = "mpm"
     /\ is(q[2], a, IF g.ct = "CF" THEN "X" ELSE "Z")
     /\ IF g.ct = "CF" THEN is(q[4], g.c, "Z") ELSE is(q[4], g.q, "X")
\* the fragment f has the requested CNOT style
StyleOk(g, f, o) ==
  LET ms == OfKind(f, "mpm") as == OfKind(f, "init") cs == OfKind(f, "cnot")
  IN IF o.local \/ g.ct = "BELL" THEN cs # <<>> /\ ms = <<>> /\ as = <<>>
     ELSE /\ cs = <<>> /\ Len(ms) >= 2 /\ Len(as) >= 1
          /\ (IF g.ct = "CF" THEN g.c ELSE g.q) \in InsPatches(ms[1])
          /\ as[1].pn = (IF g.ap = "D" THEN <<>> ELSE IF g.ap = "C" THEN <<g.c, "Z">> ELSE <<g.q, "X">>)
          /\ IF o.corr THEN Corrections(g, f) ELSE \A k \in DOMAIN f : ~IsPauliOp(f[k])
\* a complete fragment f for gate g, given that the state it ends in is the ideal one
Complete(g, f, o) ==
  CASE Pauli(g) -> f[Len(f)].k = "op" /\ f[Len(f)].t = g.q /\ f[Len(f)].op = Upper(Clifford(g))
    [] g.g = "s" \/ g.g = "sdg" -> f[Len(f)].k # "op" \/ f[Len(f)].op # "S" \/ f[Len(f)].dag = (g.g = "sdg")
    [] OTHER -> TRUE
Tidy(g, f, o, before) ==
  IF \E k \in DOMAIN f : ~((InsPatches(f[k]) \cup SetOf(f[k].cl)) \ (GateQubits(g) \cup {x \in InsPatches(f[k]) : x \notin before}) \subseteq {}) THEN "a gate's instructions touch a patch that is not the gate's"
  ELSE IF \E k \in DOMAIN f : f[k].k = "rot" THEN "an unrequested rotation"
  ELSE IF Controlled(g) /\ ~StyleOk(g, f, o) THEN "CNOT style, ancilla placement or correction mode not the requested one"
  ELSE IF ~Controlled(g) /\ ~Pauli(g) /\ ~o.corr /\ \E k \in DOMAIN f : IsPauliOp(f[k]) THEN "an unrequested Pauli operation"
  ELSE IF Pauli(g) /\ ~o.corr /\ Len(f) # 1 THEN "a Pauli gate takes more than the Pauli operation"
  ELSE ""

\* Consume the instructions in order, closing a gate as soon as its group is reached with every auxiliary patch gone; every gate
\* starts from fresh references, so that what earlier gates did cannot hide what this one does.
RECURSIVE Walk(_, _, _, _, _, _, _)
Walk(ins, k, gates, g, st, w, o) ==          \* w: [want (group after gate g), from (first instruction of gate g), before (ids known before it)]
  IF st.bad # "" THEN [ok |-> FALSE, why |-> st.bad, at |-> k - 1, g |-> g]
  ELSE IF k > Len(ins) THEN (IF w.from = k \/ (\A j \in w.from..Len(ins) : o.corr /\ IsPauliOp(ins[j])) THEN [ok |-> TRUE, why |-> "", at |-> k, g |-> g] ELSE [ok |-> FALSE, why |-> "the instructions of a gate do not implement it", at |-> w.from, g |-> g])
  ELSE IF g > Len(gates) THEN (IF o.corr /\ IsPauliOp(ins[k]) THEN Walk(ins, k + 1, gates, g, st, w, o) ELSE [ok |-> FALSE, why |-> "instructions left over after the last gate", at |-> k, g |-> g])
  ELSE LET s2 == Exec(st, o.core, ins[k]) f == SubSeq(ins, w.from, k)
           done == s2.bad = "" /\ s2.live = {} /\ Len(s2.S) = Len(w.want) /\ SameGroup(s2.S, w.want) /\ Complete(gates[g], f, o)
       IN IF ~done THEN Walk(ins, k + 1, gates, g, s2, w, o)
          ELSE LET t == Tidy(gates[g], f, o, w.before) IN
               IF t # "" THEN [ok |-> FALSE, why |-> t, at |-> w.from, g |-> g]
               ELSE IF g = Len(gates) THEN Walk(ins, k + 1, gates, g + 1, s2, [w EXCEPT !.from = k + 1], o)
               ELSE IF Unsupported(gates[g + 1], o) THEN (IF k = Len(ins) THEN [ok |-> TRUE, why |-> "", at |-> k, g |-> g + 1] ELSE [ok |-> FALSE, why |-> "instructions emitted for an unsupported gate", at |-> k + 1, g |-> g + 1])
               ELSE Walk(ins, k + 1, gates, g + 1, [s2 EXCEPT !.S = Start(o.core).S], [want |-> Ideal(Start(o.core).S, gates[g + 1], s2.nm), from |-> k + 1, before |-> s2.used], o)
Implements(ins, gates, o) ==
  LET s0 == Start(o.core) IN
  IF gates = <<>> THEN [ok |-> ins = <<>>, why |-> "instructions without gates", at |-> 1, g |-> 1]
  ELSE IF Unsupported(gates[1], o) THEN [ok |-> ins = <<>>, why |-> "instructions emitted for an unsupported gate", at |-> 1, g |-> 1]
  ELSE Walk(ins, 1, gates, 1, s0, [want |-> Ideal(s0.S, gates[1], 0), from |-> 1, before |-> SetOf(o.core)], o)
\* the whole list, without matching gate by gate (several rewritings composed)
RECURSIVE IdealAll(_, _, _, _)
IdealAll(S, gates, g, nm) == IF g > Len(gates) THEN S ELSE IdealAll(Ideal(S, gates[g], nm), gates, g + 1, IF IsT(gates[g]) THEN nm + 1 ELSE nm)
RunAll(ins, core) == FoldLeft(LAMBDA s, i : Exec(s, core, i), Start(core), ins)
ImplementsAll(ins, gates, core) ==
  LET r == RunAll(ins, core) IN
  IF r.bad # "" THEN r.bad ELSE IF r.live # {} THEN "auxiliary patches left at the end" ELSE IF ~SameGroup(r.S, IdealAll(Start(core).S, gates, 1, 0)) THEN "the instructions do not implement the gates" ELSE ""

(* A recorded finding: the CNOT through an ancilla measures the ancilla out in X where only Z (control first) or an ancilla in |0>
   (target first) implements a CNOT. Mend undoes exactly that, so that everything else about such a list is still checked.   *)
Mend(ins) ==
  LET using(a) == SelectSeq([k \in 1..Len(ins) |-> k], LAMBDA k : ins[k].k = "mpm" /\ \E j \in DOMAIN ins[k].obs : ins[k].obs[j][1] = a)
      op(k, a) == LET j == CHOOSE j \in DOMAIN ins[k].obs : ins[k].obs[j][1] = a IN ins[k].obs[j][2]
      plus == {ins[k].t : k \in {k \in DOMAIN ins : ins[k].k = "init" /\ ins[k].st = "+"}}
      ends == {ins[k].t : k \in {k \in DOMAIN ins : ins[k].k = "meas" /\ ins[k].p = "X"}}
      hit(p, q) == {a \in plus \cap ends : LET u == using(a) IN Len(u) = 2 /\ op(u[1], a) = p /\ op(u[2], a) = q}
      cf == hit("Z", "X") tf == hit("X", "Z")
  IN [k \in DOMAIN ins |-> IF ins[k].k = "meas" /\ ins[k].t \in cf THEN [ins[k] EXCEPT !.p = "Z"] ELSE IF ins[k].k = "init" /\ ins[k].t \in tf THEN [ins[k] EXCEPT !.st = "0"] ELSE ins[k]]
AncillaBasis == "a CNOT through an ancilla measures the ancilla in the basis that collapses the target (nothing else is wrong with the list)"

------------------------------------------------------------------------------
(* Rewriting of S operations (C10). ren: how the source's auxiliary ids appear in the rewritten list. *)
NewIds(i) == CASE i.k \in {"init", "magic", "y"} -> <<i.t>> [] i.k \in {"cnot", "bell"} -> <<i.s1, i.s2>> [] OTHER -> <<>>
Ren(ren, x) == IF x \in DOMAIN ren THEN ren[x] ELSE x
RenIns(i, ren) ==
  LET pn(p) == IF p = <<>> THEN p ELSE <<Ren(ren, p[1]), p[2]>>
      b == [i EXCEPT !.cl = [k \in DOMAIN i.cl |-> Ren(ren, i.cl[k])]]
  IN CASE i.k \in {"op", "rot", "meas", "reset"} -> [b EXCEPT !.t = Ren(ren, @)]
       [] i.k = "mpm" -> [b EXCEPT !.obs = [k \in DOMAIN i.obs |-> <<Ren(ren, i.obs[k][1]), i.obs[k][2]>>]]
       [] i.k = "init" -> [b EXCEPT !.t = Ren(ren, @), !.pn = pn(i.pn)]
       [] i.k \in {"magic", "y"} -> [b EXCEPT !.t = Ren(ren, @), !.near = Ren(ren, @)]
       [] i.k = "cnot" -> [b EXCEPT !.c = Ren(ren, @), !.t = Ren(ren, @), !.s1 = Ren(ren, @), !.s2 = Ren(ren, @)]
       [] i.k = "bell" -> [b EXCEPT !.s1 = Ren(ren, @), !.s2 = Ren(ren, @), !.l1 = pn(i.l1), !.l2 = pn(i.l2)]
       [] OTHER -> b
Extend(ren, b, i) == LET x == NewIds(b) y == NewIds(i) IN [d \in DOMAIN ren \cup SetOf(x) |-> IF \E k \in DOMAIN x : x[k] = d /\ k <= Len(y) THEN y[CHOOSE k \in DOMAIN x : x[k] = d] ELSE ren[d]]
NoRen == [x \in {} |-> 0]

SOnCore(b, o) == b.k = "op" /\ b.op = "S" /\ b.t \in SetOf(o.core)
HOnCore(b, o) == b.k = "op" /\ b.op = "H" /\ b.t \in SetOf(o.core)
\* Configurations [b: next source instruction, ph, ren, used, q, st]; ph: 0 expecting it, 1 inside an S sequence, 2 after an S sequence (Pauli
\* corrections may follow; z: the corrective Z that the teleported sequence ends in was seen), 3 a rotation must follow. All readings of the list are followed.
Pass(c, base, i, o) ==                       \* the instruction i taken as the source's instruction number c.b
  IF c.b > Len(base) THEN {}
  ELSE LET b == base[c.b]
           same == b.k = i.k /\ LET r == Extend(c.ren, b, i) IN i = RenIns(b, r)
           fresh == NewIds(i)
       IN IF SOnCore(b, o) \/ ~same THEN {}
          ELSE IF o.fresh /\ \E k \in DOMAIN fresh : fresh[k] \in c.used /\ NewIds(b)[k] \notin DOMAIN c.ren THEN {}
          ELSE {[c EXCEPT !.b = @ + 1, !.ren = IF o.fresh THEN Extend(c.ren, b, i) ELSE @, !.used = @ \cup SetOf(fresh), !.ph = IF o.rotate /\ HOnCore(b, o) THEN 3 ELSE 0, !.q = IF b.k = "op" THEN b.t ELSE @]}
Shut(c, o) ==                                \* an S sequence may end here
  c.st.live = {} /\ c.st.flip \cap {c.q} = {} /\ SameGroup(c.st.S, GateS(Start(<<c.q>>).S, c.q)) /\ c.st.nm = 0 /\ c.ny >= (IF o.cat THEN 2 ELSE 1)
Feed(c, i, o) ==
  LET s == Exec(c.st, <<c.q>>, i)
  IN IF s.bad # "" \/ (i.k = "op" /\ i.op = "S") \/ (i.k = "y" /\ i.near # c.q) \/ i.k \in {"reset", "magic", "bell"} \/ SetOf(i.cl) \ ({c.q} \cup s.live) # {} THEN {}
     ELSE LET d == [c EXCEPT !.st = s, !.used = @ \cup SetOf(NewIds(i)), !.ph = 1, !.ny = IF i.k = "y" THEN @ + 1 ELSE @] IN {IF Shut(d, o) THEN [d EXCEPT !.ph = 2, !.b = @ + 1] ELSE d}
Begin(c, base, i, o) ==
  IF c.b > Len(base) \/ ~SOnCore(base[c.b], o) THEN {}
  ELSE Feed([c EXCEPT !.q = base[c.b].t, !.ny = 0, !.z = o.cat, !.st = [Start(<<base[c.b].t>>) EXCEPT !.used = c.used]], i, o)
Move(c, base, i, o) ==
  CASE c.ph = 0 -> Pass(c, base, i, o) \cup Begin(c, base, i, o)
    [] c.ph = 1 -> Feed(c, i, o)
    [] c.ph = 2 -> (IF c.z THEN Pass(c, base, i, o) \cup Begin(c, base, i, o) ELSE {}) \cup (IF IsPauliOp(i) /\ i.t = c.q THEN {[c EXCEPT !.z = @ \/ i.op = "Z"]} ELSE {})
    [] c.ph = 3 -> IF i.k = "rot" /\ i.t = c.q THEN {[c EXCEPT !.ph = 0]} ELSE {}
Rewritten(ins, base, o) ==                   \* 0: a rewriting of base; otherwise the number of the first instruction that cannot be part of one
  LET i0 == [b |-> 1, ph |-> 0, ren |-> NoRen, used |-> SetOf(o.core) \cup o.ids, q |-> -1, ny |-> 0, z |-> TRUE, st |-> Start(<<>>)]
      step(a, k) == IF a.at # 0 THEN a ELSE LET n == UNION {Move(c, base, ins[k], o) : c \in a.cs} IN IF n = {} THEN [a EXCEPT !.at = k] ELSE [a EXCEPT !.cs = n]
      r == FoldLeft(step, [cs |-> {i0}, at |-> 0], [k \in 1..Len(ins) |-> k])
  IN IF r.at # 0 THEN r.at ELSE IF \E c \in r.cs : c.b = Len(base) + 1 /\ c.ph \in {0, 2} /\ c.z THEN 0 ELSE Len(ins) + 1

------------------------------------------------------------------------------
(* Rotation injection (C11). ex: function from a declared qubit to <<X exposed, Z exposed>>. *)
Needs(b) == CASE b.k = "mpm" -> {<<b.obs[k][1], b.obs[k][2]>> : k \in DOMAIN b.obs}
              [] b.k = "cnot" -> {<<b.c, "Z">>, <<b.t, "X">>}
              [] b.k = "op" -> IF b.op = "S" THEN {<<b.t, "Z">>} ELSE {}
              [] OTHER -> {}
Exposed(ex, n) == n[1] \notin DOMAIN ex \/ IF n[2] = "X" THEN ex[n[1]][1] ELSE IF n[2] = "Z" THEN ex[n[1]][2] ELSE TRUE
Swap(ex, q) == IF q \in DOMAIN ex THEN [ex EXCEPT ![q] = <<@[2], @[1]>>] ELSE ex
Injected(ins, base, ex0) ==                  \* 0 or the number of the first wrong instruction
  LET step(a, k) ==
        IF a.at # 0 THEN a
        ELSE IF a.b > Len(base) THEN [a EXCEPT !.at = k]
        ELSE LET b == base[a.b] i == ins[k]
                 missing == {n \in Needs(b) : ~Exposed(a.ex, n)}
             IN IF missing = {} THEN (IF i = b THEN [a EXCEPT !.b = @ + 1, !.ex = IF (b.k = "op" /\ b.op = "H") \/ b.k = "rot" THEN Swap(@, b.t) ELSE @] ELSE [a EXCEPT !.at = k])
                ELSE IF i.k = "rot" /\ \E n \in missing : n[1] = i.t THEN [a EXCEPT !.ex = Swap(@, i.t)] ELSE [a EXCEPT !.at = k]
      r == FoldLeft(step, [b |-> 1, ex |-> ex0, at |-> 0], [k \in 1..Len(ins) |-> k])
  IN IF r.at # 0 THEN r.at ELSE IF r.b = Len(base) + 1 THEN 0 ELSE Len(ins) + 1
=============================================================================
