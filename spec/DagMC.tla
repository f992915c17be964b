-------------------------------- MODULE DagMC -------------------------------
(* Every short history of DAG operations. The order of the remaining nodes is never disturbed; the histories are printed and
   replayed on the real DAG.                                                                                             *)
EXTENDS DagSpec, Json, IOUtils
Num(s) == CHOOSE k \in 0..100000 : ToString(k) = s
Depth == Num(IOEnv.MCDEPTH)
Every == Num(IOEnv.MCEVERY)
It(t, q) == [tag |-> t, qs |-> q]
P(q) == [k |-> "push", item |-> It(0, q)]
Starts0 == { <<>>, <<P(<<1>>), P(<<1, 2>>), P(<<2>>)>>, <<P(<<1>>), P(<<2>>), P(<<1, 2>>), P(<<1>>), P(<<2>>)>>, <<P(<<1>>), P(<<1>>), P(<<2>>), P(<<3>>)>>,
              <<P(<<1>>), P(<<2>>), P(<<3>>), [k |-> "expand", l |-> 0, items |-> <<It(1, <<1>>), It(2, <<1>>)>>, prox |-> TRUE],
                [k |-> "expand", l |-> 1, items |-> <<It(3, <<2>>), It(4, <<2>>)>>, prox |-> TRUE], [k |-> "expand", l |-> 2, items |-> <<It(5, <<3>>), It(6, <<3>>)>>, prox |-> TRUE]>> }
Do(d, o) == CASE o.k = "push" -> Push(d, o.item) [] o.k = "pop" -> Pop(d, o.l) [] o.k = "expand" -> Expand(d, o.l, o.items, o.prox) [] OTHER -> MakeUrgent(d, o.l)
VARIABLES d, h, n
vars == <<d, h, n>>
Init == \E p \in Starts0 : h = p /\ n = 0 /\ d = FoldLeft(LAMBDA x, o : Do(x, o), EmptyDag, p)
Ops == {P(q) : q \in {<<1>>, <<2>>, <<1, 2>>}}
       \cup {[k |-> "pop", l |-> x] : x \in Heads(d)}
       \cup {[k |-> "expand", l |-> x, items |-> s, prox |-> b] : x \in d.N, b \in BOOLEAN, s \in {<<It(7, <<1>>)>>, <<It(8, <<2>>), It(9, <<2>>)>>, <<It(8, <<1>>), It(9, <<>>), It(10, <<1, 2>>)>>}}
       \cup {[k |-> "prox", l |-> x] : x \in d.N}
Next == n < Depth /\ \E o \in Ops : d' = Do(d, o) /\ h' = Append(h, o) /\ n' = n + 1
Spec == Init /\ [][Next]_vars

Sane == /\ \A e \in d.E : e[1] \in d.N /\ e[2] \in d.N
        /\ \A e \in Closure(d.E) : e[1] # e[2]
        /\ d.N # {} => Heads(d) # {}
        /\ d.deps \subseteq d.E /\ d.urgent \subseteq d.N /\ DOMAIN d.it = d.N
Within(R, S) == {e \in R : e[1] \in S /\ e[2] \in S}
OrderKept == [][Within(Closure(d.E), d.N \cap d'.N) = Within(Closure(d'.E), d.N \cap d'.N)]_vars
Emit == Every = 0 \/ n < Depth \/ TLCGet("distinct") % Every # 0 \/ PrintT("STATE|" \o ToJson([ops |-> h]))
=============================================================================
