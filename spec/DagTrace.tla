------------------------------ MODULE DagTrace ------------------------------
(* Histories of operations on the real dependency DAG, and DAGs built from real instruction and gate lists.           *)
EXTENDS DagSpec, Lattice, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, job, d
vars == <<l, job, d>>
Fail(clause, detail) == PrintT("FAIL|C08|" \o ToString(job) \o "|" \o ToString(l) \o "|" \o clause \o "|" \o ToString(detail))
Chk(c, clause, detail) == IF c THEN TRUE ELSE Fail(clause, detail)

Pairs(s) == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
NoDup(s) == Cardinality(SetOf(s)) = Len(s)
Pos(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
\* the observable part of a DAG against the specified one
Same(m, o, what) ==
  LET C == Closure(m.E) IN
  /\ Chk(SetOf(o.N) = m.N /\ NoDup(o.N), "nodes", <<what, o.N, m.N>>)
  /\ Chk({<<p[2], p[1]>> : p \in Pairs(o.B)} = Pairs(o.E), "forward and backward adjacency disagree", <<what, o.E, o.B>>)
  /\ Chk(Closure(Pairs(o.E)) = C, "order of the nodes: observed, specified", <<what, o.E, m.E>>)
  /\ Chk(\A e \in Closure(Pairs(o.E)) : e[1] # e[2], "cycle", <<what, o.E>>)
  /\ Chk(SetOf(o.H) = Heads(m) /\ NoDup(o.H), "applicable nodes", <<what, o.H, Heads(m)>>)
  /\ Chk(SetOf(o.TL) = Tails(m) /\ NoDup(o.TL), "tails", <<what, o.TL, Tails(m)>>)
  /\ Chk(SetOf(o.P) = m.urgent /\ NoDup(o.P), "urgent nodes: observed, specified", <<what, o.P, m.urgent>>)
  /\ Chk(SetOf(o.T) = m.N /\ NoDup(o.T) /\ \A e \in C : Pos(o.T, e[2]) < Pos(o.T, e[1]), "topological listing", <<what, o.T, m.E>>)
  /\ Chk(o.empty <=> m.N = {}, "emptiness", <<what, o.empty>>)

LegalOp(o) == CASE o.k = "push" -> TRUE [] o.k = "expand" -> o.l \in d.N /\ o.items # <<>> [] OTHER -> o.l \in d.N
Do(o) == CASE o.k = "push" -> Push(d, o.item) [] o.k = "pop" -> Pop(d, o.l) [] o.k = "expand" -> Expand(d, o.l, o.items, o.prox) [] OTHER -> MakeUrgent(d, o.l)
After(e) == IF LegalOp(e.op) THEN Do(e.op) ELSE d
OnDag(e) ==
  LET m == After(e) IN
  /\ Chk((e.r = "ret") <=> LegalOp(e.op), "operation accepted or rejected wrongly", e.op)
  /\ Chk(e.r # "ret" \/ e.op.k \notin {"push", "expand"} \/ e.lab = d.nxt, "label returned", <<e.op, e.lab, d.nxt>>)
  /\ Same(m, e.st, e.op)
  /\ Chk(Pairs(e.tags) = {<<x, m.it[x].tag>> : x \in m.N}, "items of the nodes", <<e.op, e.tags>>)
Str(x) == ToString(x)
OnGv(e) ==
  LET need == {"  " \o Str(p[1]) \o " -> " \o Str(p[2]) \o " [penwidth=5];" : p \in d.deps} \cup {"  " \o Str(x) \o " [fontcolor=red];" : x \in d.urgent}
              \cup {"  " \o Str(x) \o " [shape=\"plaintext\",label=<<table cellborder=\"0\"><tr><td><b>a&gt;i" \o Str(d.it[x].tag) \o "</b></td></tr><tr><td><font color=\"darkgray\">node: " \o Str(x) \o "</font></td></tr></table>>];" : x \in d.N}
              \cup {"digraph DirectedGraph {", "}"}
      \* plain edge lines are compared with the adjacency already checked: at least the covering edges, at most the order
      edge == {"  " \o Str(p[1]) \o " -> " \o Str(p[2]) \o ";" : p \in Closure(d.E)}
  IN /\ Chk(need \subseteq SetOf(e.lines), "drawing lacks a node, an urgent mark or a must-follow pair", need \ SetOf(e.lines))
     /\ Chk(SetOf(e.lines) \subseteq need \cup edge, "drawing shows something that is not there", SetOf(e.lines) \ (need \cup edge))

\* --- instruction and gate lists
Ctl(g) == g.g \in {"cx", "cz", "crz", "cy", "ch", "cs", "ct", "csdg", "ctdg"}
QubitsOf(g) == IF Ctl(g) THEN {g.c, g.q} ELSE {g.q}
GateConflict(a, b) == IF Ctl(a) /\ Ctl(b) /\ a.c = b.c THEN a.q = b.q ELSE QubitsOf(a) \cap QubitsOf(b) # {}
OnDomain(e, gates) ==
  LET n == Len(e.src) it(k) == e.src[k]
      m == [N |-> 0..(n-1), urgent |-> {},
            E |-> {<<p[1] - 1, p[2] - 1>> : p \in {q \in (1..n) \X (1..n) : q[1] < q[2] /\ (IF gates THEN GateConflict(it(q[1]), it(q[2])) ELSE Deps(it(q[1])) \cap Deps(it(q[2])) # {})}}]
  IN IF e.r # "ret" THEN Fail("the dependency graph could not be built", e.msg)
     ELSE Same(m, e.st, "list") /\ Chk({<<e.items[k][1], e.items[k][2]>> : k \in DOMAIN e.items} = {<<k - 1, it(k)>> : k \in 1..n}, "items of the graph are not the items of the list", 0)

Check(e) == CASE e.e = "dag" -> OnDag(e)
              [] e.e = "gv" -> OnGv(e)
              [] e.e = "ddag" -> OnDomain(e, e.gates)
              [] e.e \in {"dead", "uncaught"} -> Fail("the code under test crashed or hung", e)
              [] OTHER -> TRUE
Init == l = 1 /\ job = 0 /\ d = EmptyDag
Next == LET e == Trace[l] IN
        /\ l <= Len(Trace) /\ l' = l + 1
        /\ job' = (IF e.e = "job" THEN e.job ELSE job)
        /\ d' = (IF e.e = "dagbegin" THEN EmptyDag ELSE IF e.e = "dag" THEN After(e) ELSE d)
        /\ Check(e)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
