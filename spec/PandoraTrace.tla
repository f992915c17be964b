---------------------------- MODULE PandoraTrace ----------------------------
(* Circuits read from a database by the real code, checked against PandoraSpec. *)
EXTENDS PandoraSpec, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, job
vars == <<l, job, db, at, left, got, stopped>>
Fail(clause, detail) == PrintT("FAIL|C23|" \o ToString(job) \o "|" \o ToString(l) \o "|" \o clause \o "|" \o ToString(detail))
Chk(c, clause, detail) == IF c THEN TRUE ELSE Fail(clause, detail)
Plain(g) == [g |-> g.g, q |-> g.q, c |-> IF "c" \in DOMAIN g THEN g.c ELSE NoTarget]
Db(e) ==
  LET gs == [k \in DOMAIN e.gates |-> Plain(e.gates[k])] rows == e.rows IN
  CASE ~e.up -> Chk(e.r = "exc" /\ gs = <<>>, "a database that cannot be reached was read", e)
    [] ~Whole(rows) -> Fail("the check asked about a malformed table", rows)
    [] OTHER ->
      /\ Chk(e.n = Size(rows) \/ (e.n = -1 /\ e.r = "exc"), "register size: observed, specified", <<e.n, Size(rows)>>)
      /\ IF Open(rows) THEN TRUE
         ELSE /\ Chk(Complete(rows, gs), "gates missing, changed or out of order: table, observed", <<rows, gs>>)
              /\ Chk(~Complete(rows, gs) \/ Allowed(rows, gs), "gates that the database does not hold: table, observed", <<rows, gs>>)
              /\ Chk((e.r = "exc") = (Broken(rows) # {}), "an unsupported row was accepted or a supported table rejected: table, outcome", <<rows, e.r, e.msg>>)
              /\ Chk(e.r # "exc" \/ Broken(rows) = {} \/ Says(rows, e.msg), "the error does not say what is not supported", <<rows, e.msg>>)
\* rows that are open are still rows: their gates act on their own qubits and nothing else disappears
      /\ Chk(~Open(rows) \/ Broken(rows) # {} \/ e.r = "exc" \/
               \A n \in 1..LastLayer(rows) : \A i \in Pending(rows, n) : Cardinality({k \in DOMAIN gs : gs[k] = Denotes(rows[i]).g}) >=
                  Cardinality({j \in DOMAIN rows : LayerOf(rows[j]) > 0 /\ Denotes(rows[j]) = Denotes(rows[i])}), "gates missing next to open rows: table, observed", <<rows, gs>>)
Check(e) == CASE e.e = "db" -> Db(e)
              [] e.e \in {"dead", "uncaught"} -> Fail("the code under test crashed or hung", e)
              [] OTHER -> TRUE
Init == l = 1 /\ job = 0 /\ db = <<>> /\ at = 0 /\ left = {} /\ got = <<>> /\ stopped = FALSE
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ job' = (IF Trace[l].e = "job" THEN Trace[l].job ELSE job)
        /\ Check(Trace[l]) /\ UNCHANGED <<db, at, left, got, stopped>>
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
