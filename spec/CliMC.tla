------------------------------ MODULE CliMC ------------------------------
(* Every combination of option values that bear on each other, and the listed combinations a check runs the real program with.
   The states are option sets; what they mean is checked to be determined and coherent, and printed for the listed ones.        *)
EXTENDS CliSpec, Json, IOUtils
Listed == IF IOEnv.OPTS = "" THEN <<>> ELSE ndJsonDeserialize(IOEnv.OPTS)
Plain == [L |-> "-", I |-> "-", lay |-> "-", f |-> "-", P |-> "-", r |-> "-", g |-> "-", corr |-> "-", printlli |-> "-", printdag |-> "-", input |-> "-", t |-> "-",
          lanes |-> -1, cond |-> -1, dt |-> -1, fact |-> FALSE, local |-> FALSE, notwists |-> FALSE, out |-> FALSE, noslices |-> FALSE, opids |-> FALSE, graceful |-> FALSE, nostagger |-> FALSE, strings |-> FALSE,
          core |-> <<0, 1>>, rows |-> <<>>, src |-> [lli |-> ""], port |-> "-", dbport |-> "5432"]
Files == {<<>>, <<"QrQ", "rrr">>, <<"QrQ", "YrA">>}
\* which compilation
Compile == {[Plain EXCEPT !.L = a, !.lay = IF b = <<>> THEN "-" ELSE "f", !.rows = b, !.P = p, !.lanes = n, !.local = c, !.notwists = d, !.I = i, !.corr = k] :
              a \in {"-", "compact", "compact_no_clogging", "edpc", "?"}, b \in Files, p \in {"-", "", "stream", "dag", "wave", "edpc", "?"}, n \in {-1, 1, 2}, c \in BOOLEAN, d \in BOOLEAN,
              i \in {"-", "qasm", "p", "?"}, k \in {"-", "always", "?"}}
\* what is written where
Write == {[Plain EXCEPT !.f = a, !.out = b, !.noslices = c, !.printlli = d, !.printdag = e, !.r = r, !.g = g, !.input = i, !.I = k, !.P = p] :
              a \in {"-", "progress", "noprogress", "machine", "stats", "?"}, b \in BOOLEAN, c \in BOOLEAN, d \in {"-", "", "before", "sliced", "?"}, e \in {"-", "", "input", "processedlli", "?"},
              r \in {"-", "?"}, g \in {"astar", "?"}, i \in {"file", "missing"}, k \in {"-", "q"}, p \in {"-", "wave"}}
VARIABLES o, k
vars == <<o, k>>
Init == \/ o \in Compile /\ k = 0
        \/ o \in Write /\ k = 0
        \/ \E i \in DOMAIN Listed : o = Listed[i] /\ k = i
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
M == Meaning(o)
Determined == M.kind \in {"any", "refuse", "gatedag", "dag", "list", "run"}
Coherent ==
  M.kind = "run" =>
    LET j == M.job IN
    /\ j.pipe \in {"stream", "dag", "wave", "edpc"} /\ j.router \in {"custom", "cached"} /\ j.gs \in {"dij", "astar", "boost"}
    /\ (j.pipe = "edpc" => j.local /\ "lanes" \in DOMAIN j.layout /\ j.layout.lanes = 1)
    \* without twists, Y states come with the layout
    /\ (~j.twists => IF "rows" \in DOMAIN j.layout THEN Has(j.layout.rows, "Y") ELSE j.layout.gen = "edpc" /\ j.layout.pre)
    /\ ("gen" \in DOMAIN j.layout => j.anc = (IF j.layout.gen = "compact" THEN "D" ELSE "T") /\ j.inj # <<>>)
    /\ (M.what = "slices") = (o.printlli = "-" /\ ~o.noslices)
    /\ (M.summary # "none" <=> o.out \/ o.noslices)
    /\ \A i \in ToSet(o.core) : i < j.idstart
\* what is written does not change what is compiled
Independent ==
  M.kind = "run" => LET p == [o EXCEPT !.f = "-", !.out = FALSE, !.noslices = FALSE, !.printlli = "-", !.strings = FALSE] IN Meaning(p).kind = "run" /\ Meaning(p).job = M.job
\* a value no one knows is never accepted
Strings == {"L", "I", "f", "P", "r", "g", "printlli", "printdag"}
Strict == \A f \in Strings : Meaning([o EXCEPT ![f] = "?unknown"]).kind \in {"refuse", "any"}
\* the spelled-out defaults mean the same as leaving the option out
Defaults ==
  /\ (o.P = "-" => Meaning([o EXCEPT !.P = "stream"]) = M) /\ (o.r = "-" => Meaning([o EXCEPT !.r = "graph_search"]) = M) /\ (o.g = "-" => Meaning([o EXCEPT !.g = "djikstra"]) = M)
  /\ (o.corr = "-" => Meaning([o EXCEPT !.corr = "never"]) = M) /\ (o.I = "-" => Meaning([o EXCEPT !.I = "lli"]) = M) /\ (o.dt = -1 => Meaning([o EXCEPT !.dt = 10]) = M)
  /\ (o.L = "-" /\ o.lay = "-" => Meaning([o EXCEPT !.L = "compact"]) = M) /\ (o.lanes = -1 => Meaning([o EXCEPT !.lanes = 1]) = M)
Emit == k > 0 => PrintT("STATE|" \o ToJson([k |-> k, m |-> M]))
=============================================================================
