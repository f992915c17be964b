----------------------------- MODULE TransTrace -----------------------------
(* Instruction lists emitted by the real translators, checked against TransSpec. The job header's x says which translator ran:
   mode "gates" (C09), "s" (C10), "expo" (C11), "all" (composition of the translators, as the command line does).          *)
EXTENDS TransSpec, LayoutSpec, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, job, x
vars == <<l, job, x>>
Fail(tag, clause, detail) == PrintT("FAIL|" \o tag \o "|" \o ToString(job) \o "|" \o ToString(l) \o "|" \o clause \o "|" \o ToString(detail))
Chk(c, tag, clause, detail) == IF c THEN TRUE ELSE Fail(tag, clause, detail)
Tag == CASE x.mode = "gates" -> "C09" [] x.mode = "s" -> "C10" [] x.mode = "expo" -> "C11" [] OTHER -> "C09,C10,C11"

From(s, k) == SubSeq(s, k, IF Len(s) < k + 9 THEN Len(s) ELSE k + 9)
FirstBad(gs, o) == LET B == {k \in DOMAIN gs : Unsupported(gs[k], o)} IN IF B = {} THEN 0 ELSE Min(B)
OnGates(e) ==
  LET o == [core |-> e.core, corr |-> x.corr, local |-> x.local, reg |-> x.reg]
      b == FirstBad(x.gates, o)
      r0 == Implements(e.ins, x.gates, o)
      r == IF r0.ok THEN r0 ELSE Implements(Mend(e.ins), x.gates, o)
  IN /\ Chk((e.r = "exc") <=> b # 0, "C09", "a gate was rejected or accepted wrongly", <<e.r, e.msg, IF b = 0 THEN <<>> ELSE x.gates[b]>>)
     /\ Chk(r0.ok \/ ~r.ok, "C09", AncillaBasis, <<"gate", x.gates[r0.g]>>)
     /\ Chk(e.core = [k \in 1..x.n |-> k - 1], "C09", "declared qubits are not the register", e.core)
     /\ IF r.ok THEN Chk(r.g = (IF b = 0 THEN Len(x.gates) + 1 ELSE b) \/ x.gates = <<>>, "C09", "a gate has no instructions", <<x.gates, r.g>>)
        ELSE Fail("C09", r.why, <<"gate", IF r.g > Len(x.gates) THEN <<>> ELSE x.gates[r.g], "instructions", From(e.ins, r.at)>>)

IdsIn(q) == UNION {SetOf(NewIds(q[k])) : k \in DOMAIN q}
OnS(e) ==
  LET o == [core |-> e.core, rotate |-> x.rotate, cat |-> x.cat, fresh |-> x.fresh, ids |-> IF x.fresh THEN {} ELSE IdsIn(e.base)]
      k0 == Rewritten(e.ins, e.base, o)
      k == IF k0 = 0 THEN 0 ELSE Rewritten(Mend(e.ins), Mend(e.base), o)
  IN IF e.r # "ret" THEN Fail("C10", "the rewriting failed", e.msg)
     ELSE IF k = 0 /\ k0 # 0 THEN Fail("C10", AncillaBasis, <<"instruction", k0>>)
     ELSE Chk(k = 0, "C10", "not a rewriting of the source list", <<"instruction", k, "list from there", From(e.ins, IF k < 3 THEN 1 ELSE k - 2), "source", e.base>>)

\* which operators of a declared qubit face a cell that is free when slicing starts
LayEx(lay, core) ==
  LET n == Len(core)
      used == {RC(lay.core[i]) : i \in 1..n}
      opn == Open(lay) \cup (CoreCells(lay) \ used)
      side(i, d) == lay.core[i][2 + d] \div 2
      ex(i, st) == \E d \in 1..4 : side(i, d) = st /\ Step(RC(lay.core[i]), d) \in opn
      at(q) == CHOOSE i \in 1..n : core[i] = q
  IN [q \in SetOf(core) |-> <<ex(at(q), 2), ex(at(q), 3)>>]
GivenEx(p) == [q \in {p[k][1] : k \in DOMAIN p} |-> LET k == CHOOSE k \in DOMAIN p : p[k][1] = q IN <<p[k][2], p[k][3]>>]
OnExpo(e) ==
  LET ex == IF x.expo = <<>> THEN LayEx(e.lay, e.core) ELSE GivenEx(x.expo)
      fit == \A q \in DOMAIN ex : ex[q][1] \/ ex[q][2]
      k == Injected(e.ins, e.base, ex)
  IN IF e.r # "ret" THEN Fail("C11", "the injection failed", <<e.msg, e.base>>)
     ELSE Chk(~fit \/ k = 0, "C11", "a rotation missing or unnecessary, or an instruction changed", <<"instruction", k, "list from there", From(e.ins, IF k < 3 THEN 1 ELSE k - 2), "exposed at the start", ex, "source", e.base>>)
OnAll(e) ==
  IF e.r # "ret" THEN Fail(Tag, "the translation failed", e.msg)
  ELSE LET w0 == ImplementsAll(e.ins, x.gates, e.core) w == IF w0 = "" THEN "" ELSE ImplementsAll(Mend(e.ins), x.gates, e.core)
       IN Chk(w0 = "" \/ w # "", "C09", AncillaBasis, x.gates) /\ Chk(w = "", Tag, "composed translation: " \o w, <<x.gates, e.ins>>)

Check(e) == CASE e.e = "trans" -> (CASE x.mode = "gates" -> OnGates(e) [] x.mode = "s" -> OnS(e) [] x.mode = "expo" -> OnExpo(e) [] OTHER -> OnAll(e))
              [] e.e \in {"dead", "uncaught"} -> Fail(Tag, "the code under test crashed or hung", e)
              [] OTHER -> TRUE
Init == l = 1 /\ job = 0 /\ x = [mode |-> "none"]
Next == l <= Len(Trace) /\ l' = l + 1 /\ job' = (IF Trace[l].e = "job" THEN Trace[l].job ELSE job) /\ x' = (IF Trace[l].e = "job" THEN Trace[l].x ELSE x) /\ Check(Trace[l])
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
