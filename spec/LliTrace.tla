----------------------------- MODULE LliTrace -------------------------------
(* Instruction texts read and printed by the real code, checked against LliSpec. *)
EXTENDS LliSpec, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, job
vars == <<l, job>>
Fail(clause, detail) == PrintT("FAIL|C15|" \o ToString(job) \o "|" \o ToString(l) \o "|" \o clause \o "|" \o ToString(detail))
Chk(c, clause, detail) == IF c THEN TRUE ELSE Fail(clause, detail)

Line(e) ==
  IF Unsettled(e.line) THEN TRUE
  ELSE LET d == Denotes(e.line) IN
       IF d.r = "err" THEN Chk(e.r = "exc", "a line that is not in the syntax was read", <<e.line, e>>)
       ELSE IF e.r # "ret" THEN Fail("a line of the syntax was rejected", e.line)
       ELSE /\ Chk(Core(e.i) = d.i, "a line was read as another instruction: line, observed, specified", <<e.line, e.i, d.i>>)
            /\ Chk(e.i.w = -1, "an instruction that was read has a waiting limit", <<e.line, e.i.w>>)
Printed(e) ==
  IF e.r # "ret" THEN Fail("an instruction could not be printed", e.i)
  ELSE Chk((e.i.k = "op" /\ e.i.dag) \/ Find(Shown(e.i), "?") # 0 \/ e.txt = Shown(e.i), "printed text: observed, specified", <<e.txt, Shown(e.i)>>)

(* a file: the first line that is not empty declares the patches, every other one is an instruction; an empty line is skipped *)
RECURSIVE NonEmpty(_)
NonEmpty(q) == IF q = <<>> THEN <<>> ELSE IF q[1] = "" THEN NonEmpty(Tail(q)) ELSE <<q[1]>> \o NonEmpty(Tail(q))
RECURSIVE Good(_, _)
Good(q, j) == IF j > Len(q) \/ Denotes(q[j]).r = "err" THEN j - 1 ELSE Good(q, j + 1)
File(e) ==
  LET q == NonEmpty(Fields(e.text, "\n")) g == Good(q, 1) IN
  IF \E j \in DOMAIN q : Unsettled(q[j]) THEN TRUE
  ELSE IF q = <<>> \/ (g >= 1 /\ Denotes(q[1]).i.k # "decl") \/ g = 0 THEN Chk(e.r = "exc", "a file that does not begin with a declaration was read", e.text)
  ELSE /\ Chk((g < Len(q)) => e.r = "exc", "a file with a line that is not in the syntax was read to its end", <<e.text, q[g + 1]>>)
       /\ Chk((g = Len(q)) => e.r = "ret", "a file was rejected", <<e.text, e.msg>>)
       /\ Chk(Len(e.ins) <= g - 1 /\ (g = Len(q) => Len(e.ins) = g - 1), "number of instructions of a file", <<e.text, Len(e.ins)>>)
       /\ Chk(\A j \in 1..Len(e.ins) : j + 1 <= g => Core(e.ins[j]) = Denotes(q[j + 1]).i, "instructions of a file", <<e.text, e.ins>>)
       /\ Chk(e.r = "ret" => e.core = Denotes(q[1]).i.ids, "declared patches of a file", <<e.text, e.core>>)

Check(e) == CASE e.e = "lli" -> Line(e) /\ (e.r # "ret" \/ Unsettled(e.line) \/ Printed([r |-> "ret", i |-> e.i, txt |-> e.txt]))
              [] e.e = "print" -> Printed(e)
              [] e.e = "llifile" -> File(e)
              [] e.e \in {"dead", "uncaught"} -> Fail("the code under test crashed or hung", e)
              [] OTHER -> TRUE
Init == l = 1 /\ job = 0
Next == l <= Len(Trace) /\ l' = l + 1 /\ job' = (IF Trace[l].e = "job" THEN Trace[l].job ELSE job) /\ Check(Trace[l])
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
