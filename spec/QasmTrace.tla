----------------------------- MODULE QasmTrace ------------------------------
(* OpenQASM lines and files read by the real code, checked against QasmSpec. *)
EXTENDS QasmSpec, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, job, anc
vars == <<l, job, anc>>
Fail(clause, detail) == PrintT("FAIL|C16|" \o ToString(job) \o "|" \o ToString(l) \o "|" \o clause \o "|" \o ToString(detail))
Chk(c, clause, detail) == IF c THEN TRUE ELSE Fail(clause, detail)

Line(e) ==
  LET d == Denotes(e.line, anc) IN
  CASE d.r = "any" -> TRUE
    [] d.r = "err" -> Chk(e.r = "exc", "a line outside the dialect was read", <<e.line, e>>)
    [] d.r = "skip" -> Chk(e.r = "ignored", "a header, barrier, comment or blank line was not skipped", <<e.line, e>>)
    [] d.r = "qreg" -> Chk(e.r = "qreg" /\ e.name = d.name /\ e.n = d.n, "a register declaration was misread", <<e.line, e>>)
    [] d.r = "maybe" -> Chk(e.r \in {"exc", "ignored"} \/ (e.r = "gate" /\ e.gate = d.g), "a statement was read as another gate: line, observed, specified", <<e.line, e, d.g>>)
    [] OTHER -> IF e.r # "gate" THEN Fail("a statement of the dialect was rejected", <<e.line, e>>)
                ELSE Chk(e.gate = d.g, "a statement was read as another gate: line, observed, specified", <<e.line, e.gate, d.g>>)

(* a file read to its end or to its first error: [gates, reg, n, err (line number or 0), open] *)
RECURSIVE Run(_, _, _)
Run(q, j, s) ==
  IF j > Len(q) THEN s
  ELSE LET d == Denotes(q[j], anc) IN
       CASE d.r = "err" -> [s EXCEPT !.err = j]
         [] d.r \in {"any", "maybe"} -> [s EXCEPT !.open = TRUE]
         [] d.r = "qreg" -> IF s.reg # "" THEN [s EXCEPT !.err = j] ELSE Run(q, j + 1, [s EXCEPT !.reg = d.name, !.n = d.n])
         [] d.r = "gate" -> IF s.reg = "" THEN [s EXCEPT !.noreg = TRUE] ELSE Run(q, j + 1, [s EXCEPT !.gates = Append(@, d.g)])
         [] OTHER -> Run(q, j + 1, s)
Named(msg, k) == LET t == "line " \o Decimal(k) IN Occurs(msg, t) /\ \A d \in 1..10 : ~Occurs(msg, t \o Digits[d])
Rotation(g) == g.g \in {"rz", "crz"}
File(e) ==
  LET q == Fields(e.text, "\n")
      s == Run(q, 1, [gates |-> <<>>, reg |-> "", n |-> -1, err |-> 0, open |-> FALSE, noreg |-> FALSE])
      rots == {j \in DOMAIN s.gates : Rotation(s.gates[j])}
      upto == IF e.decomp /\ rots # {} THEN (CHOOSE j \in rots : \A k \in rots : j <= k) - 1 ELSE Len(s.gates)
  IN IF s.open THEN TRUE
     ELSE IF s.noreg \/ (s.err = 0 /\ s.reg = "") THEN Chk(e.r = "exc", "a program whose register does not precede its gates was read", e.text)
     ELSE /\ Chk(s.err = 0 \/ upto < Len(s.gates) \/ (e.r = "exc" /\ Named(e.msg, s.err)), "an error was not reported with its line", <<e.text, s.err, e.r, e.msg>>)
          /\ Chk(s.err # 0 \/ upto < Len(s.gates) \/ e.r = "ret", "a program was rejected", <<e.text, e.msg>>)
          /\ Chk(\A j \in 1..Len(e.gates) : j > upto \/ e.gates[j] = s.gates[j], "gates of a program: observed, specified", <<e.text, e.gates, s.gates>>)
          /\ Chk(upto < Len(s.gates) \/ Len(e.gates) <= Len(s.gates), "more gates than the program has", <<e.text, e.gates>>)
          /\ Chk(e.r # "ret" \/ Len(e.gates) >= upto, "gates missing", <<e.text, e.gates>>)
          /\ Chk(e.r # "ret" \/ (e.reg = s.reg /\ e.n = s.n), "register of a program", <<e.text, e.reg, e.n>>)

Check(e) == CASE e.e = "qline" -> Line(e)
              [] e.e = "qasm" -> File(e)
              [] e.e \in {"dead", "uncaught"} -> Fail("the code under test crashed or hung", e)
              [] OTHER -> TRUE
Init == l = 1 /\ job = 0 /\ anc = "D"
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ job' = (IF Trace[l].e = "job" THEN Trace[l].job ELSE job)
        /\ anc' = (IF Trace[l].e = "job" /\ "x" \in DOMAIN Trace[l] /\ "anc" \in DOMAIN Trace[l].x THEN Trace[l].x.anc ELSE anc)
        /\ Check(Trace[l])
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
