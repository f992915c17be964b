------------------------------- MODULE DagSpec ------------------------------
(* The dependency DAG: nodes carry an item [tag, qs]; items that share a qubit do not commute. An edge <<x, y>> says that
   x comes before y. `deps` are the pairs of chain elements that must follow each other at once, `urgent` the nodes whose
   turn is now.                                                                                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

EmptyDag == [N |-> {}, it |-> <<>>, E |-> {}, deps |-> {}, urgent |-> {}, nxt |-> 0]
RECURSIVE Closure(_)
Closure(R) == LET T == R \cup {<<pq[1][1], pq[2][2]>> : pq \in {x \in R \X R : x[1][2] = x[2][1]}}
              IN IF T = R THEN R ELSE Closure(T)
Heads(d) == {n \in d.N : \A e \in d.E : e[2] # n}
Tails(d) == {n \in d.N : \A e \in d.E : e[1] # n}
SetOf(s) == {s[i] : i \in DOMAIN s}
Conflict(a, b) == SetOf(a.qs) \cap SetOf(b.qs) # {}

Push(d, item) ==
  [d EXCEPT !.N = @ \cup {d.nxt}, !.it = @ @@ (d.nxt :> item), !.nxt = @ + 1,
            !.E = @ \cup {<<x, d.nxt>> : x \in {y \in d.N : Conflict(d.it[y], item)}}]
Pop(d, l) ==
  [d EXCEPT !.N = @ \ {l}, !.E = {e \in @ : l \notin {e[1], e[2]}}, !.it = [x \in DOMAIN @ \ {l} |-> @[x]],
            !.urgent = (@ \cup {e[2] : e \in {f \in d.deps : f[1] = l}}) \ {l}, !.deps = {e \in @ : l \notin {e[1], e[2]}}]
Subst(e, l, first, final) == <<IF e[1] = l THEN final ELSE e[1], IF e[2] = l THEN first ELSE e[2]>>
Expand(d, l, items, prox) ==
  LET k == Len(items) lab(i) == d.nxt + i - 1
      first == lab(1) final == lab(k)
      chain == {<<lab(i), lab(i + 1)>> : i \in 1..(k - 1)}
  IN [d EXCEPT !.N = (@ \ {l}) \cup {lab(i) : i \in 1..k}, !.nxt = @ + k,
               !.it = [x \in (DOMAIN @ \ {l}) |-> @[x]] @@ [x \in {lab(i) : i \in 1..k} |-> items[x - d.nxt + 1]],
               !.E = {Subst(e, l, first, final) : e \in @} \cup chain,
               !.deps = {Subst(e, l, first, final) : e \in @} \cup (IF prox THEN chain ELSE {}),
               !.urgent = IF l \in @ THEN (@ \ {l}) \cup {first} ELSE @]
MakeUrgent(d, l) == [d EXCEPT !.urgent = @ \cup {l}]
=============================================================================
