------------------------------ MODULE OutTrace ------------------------------
(* JSON slices and volume statistics of the real code, checked against OutSpec on every slice of a run. *)
EXTENDS OutSpec, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, job, lay, sum
vars == <<l, job, lay, sum>>
FailT(tag, clause, detail) == PrintT("FAIL|" \o tag \o "|" \o ToString(job) \o "|" \o ToString(l) \o "|" \o clause \o "|" \o ToString(detail))
J(c, clause, detail) == IF c THEN TRUE ELSE FailT("C18", clause, detail)
V(c, clause, detail) == IF c THEN TRUE ELSE FailT("C17", clause, detail)

Region(i) == {<<q[1], q[2]>> : q \in ToSet(lay.regs[i])}
JsonOk(e) ==
  IF ~(Len(e.js) = lay.rows /\ \A r \in DOMAIN e.js : Len(e.js[r]) = lay.cols) THEN FailT("C18", "dimensions of the JSON slice", <<lay.rows, lay.cols, e.js>>)
  ELSE /\ \A c \in Cells(e.g) :
          LET p == At(e.g, c) x == At(e.js, c) IN
          IF p = NoPatch \/ x = <<>> THEN J((p = NoPatch) = (x = <<>>), "null does not mark exactly the free cells", <<c, p, x>>)
          ELSE /\ J(x[1] = Kind(p), "patch kind", <<c, p, x>>)
               /\ J(\A d \in 1..4 : x[1 + d] = Look(p[3 + d]), "sides of a patch", <<c, p, x>>)
               /\ J(x[6] = Shows(p), "activity", <<c, p, x>>)
               /\ J(x[7] = IF p[8] = -1 THEN "?missing" ELSE T!Decimal(p[8]), "operation id", <<c, p, x>>)
               /\ J(HasTimer(x) \/ TextFits(p, x[8]), "patch id", <<c, p, x>>)
       /\ LET at == {c \in Cells(e.g) : HasTimer(At(e.js, c))} IN
          /\ J(at \subseteq UNION {Region(i) : i \in DOMAIN lay.regs}, "a time to the next magic state outside the distillation regions", <<at, lay.regs>>)
          /\ \A i \in DOMAIN lay.regs : J({At(e.js, c)[8] : c \in at \cap Region(i)} = {Timer \o T!Decimal(e.tm[i])}, "time to the next magic state", <<i, e.tm, at>>)
VolumesOk(e) ==
  LET v == Volumes(e.g, lay.resv) IN
  /\ V(e.st = v, "volume counts: observed, specified (total, unused, distillation, dead)", <<e.st, v>>)
  /\ V(Other(e.st) >= 0, "negative remainder", e.st)
Lines(t, v) == \A x \in {<<"Total volume: ", v[1]>>, <<"Distillation volume: ", v[3]>>, <<"Unused routing volume: ", v[2]>>, <<"Dead volume: ", v[4]>>, <<"Other active volume: ", Other(v)>>} :
                 \E q \in ToSet(T!Fields(t, "\n")) : q = x[1] \o T!Decimal(x[2]) \/ T!HasPrefix(q, x[1] \o T!Decimal(x[2]) \o " ")
TotalsOk(e) == /\ V(e.tot = sum, "totals over the run: observed, specified", <<e.tot, sum>>)
               /\ V(sum[1] = 0 \/ Lines(e.ttxt, sum), "printed totals", <<e.ttxt, sum>>)
Check(e) ==
  CASE e.e = "slice" -> /\ ("js" \in DOMAIN e => JsonOk(e)) /\ ("st" \in DOMAIN e => VolumesOk(e))
    [] e.e = "end" -> ("tot" \in DOMAIN e => TotalsOk(e))
    [] e.e \in {"dead", "uncaught"} -> FailT("C17,C18", "the code under test crashed or hung", e)
    [] OTHER -> TRUE
Init == l = 1 /\ job = 0 /\ lay = <<>> /\ sum = <<0, 0, 0, 0>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ job' = (IF e.e = "job" THEN e.job ELSE job)
           /\ lay' = (IF e.e = "begin" THEN e.lay ELSE lay)
           /\ sum' = (IF e.e = "job" THEN <<0, 0, 0, 0>> ELSE IF e.e = "slice" THEN LET v == Volumes(e.g, lay.resv) IN [k \in 1..4 |-> sum[k] + v[k]] ELSE sum)
           /\ Check(e)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
