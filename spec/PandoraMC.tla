----------------------------- MODULE PandoraMC ------------------------------
(* Every small table of rows, read by the machine: it always ends, hands out every supported row of the layers before the first
   broken one exactly once and layer by layer, and the judgement used on recorded runs accepts exactly its behaviours.         *)
EXTENDS PandoraSpec, TLC, Json, IOUtils
Num(s) == CHOOSE k \in 0..100000 : ToString(k) = s
Every == Num(IOEnv.MCEVERY)
Most == Num(IOEnv.MCROWS)         \* rows after the inputs
Wires == 2
Inputs == [k \in 1..Wires |-> <<0, InGate, k - 1, NoTarget, "">>]
Kinds == {<<HPow, "1.0">>, <<ZPow, "0.25">>, <<ZPow, "-0.5">>, <<ZPow, "0.3">>, <<Measure, "">>, <<SGate, "">>, <<21, "">>}
RowsAt(n) == {<<n, x[1], q, NoTarget, x[2]>> : x \in Kinds, q \in 0..(Wires - 1)} \cup {<<n, CxPow, q, 1 - q, "1.0">> : q \in 0..(Wires - 1)} \cup {<<n, OutGate, 0, NoTarget, "">>}
VARIABLE building
vars == <<db, at, left, got, stopped, building>>
Init == db = Inputs /\ at = 0 /\ left = {} /\ got = <<>> /\ stopped = FALSE /\ building = TRUE
Build == /\ building = TRUE /\ Len(db) < Wires + Most
         /\ \E n \in {LastLayer(db), LastLayer(db) + 1} \ {0} : \E r \in RowsAt(n) : db' = Append(db, r) /\ Whole(db')
         /\ UNCHANGED <<at, left, got, stopped, building>>
Go == building /\ building' = FALSE /\ UNCHANGED <<db, at, left, got, stopped>>
Step == ~building /\ Read /\ UNCHANGED building
Next == Build \/ Go \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
Gs == [k \in DOMAIN got |-> Denotes(db[got[k]]).g]
Once == \A j, k \in DOMAIN got : j # k => got[j] # got[k]
Ordered == \A j, k \in DOMAIN got : j < k => LayerOf(db[got[j]]) <= LayerOf(db[got[k]])
Faithful == \A k \in DOMAIN got : LayerOf(db[got[k]]) <= Good(db)
\* never ends early, always ends
Ends == ~building /\ Done => /\ ToSet(got) = UNION {Pending(db, n) : n \in 1..Good(db)} /\ Complete(db, Gs) /\ Allowed(db, Gs)
                             /\ stopped = (Broken(db) # {})
Progress == building \/ Done \/ ENABLED Read
\* the judgement refuses what the machine cannot produce: a prefix, and a reordering across layers
Sharp == ~building /\ Done /\ got # <<>> =>
           /\ ~Complete(db, SubSeq(Gs, 1, Len(Gs) - 1))
           /\ \A k \in 1..(Len(got) - 1) : (LayerOf(db[got[k]]) # LayerOf(db[got[k + 1]]) /\ Gs[k] # Gs[k + 1]) =>
                ~Complete(db, [Gs EXCEPT ![k] = Gs[k + 1], ![k + 1] = Gs[k]])
           /\ ~Allowed(db, Append(Gs, [g |-> "y", q |-> 0, c |-> NoTarget]))
Terminates == <>(building \/ Done)
Emit == building \/ at # 0 \/ left # {} \/ Every = 0 \/ (TLCGet("distinct") % Every # 0) \/ PrintT("STATE|" \o ToJson([rows |-> db]))
=============================================================================
