------------------------------ MODULE CliSpec ------------------------------
(* What the options of the slicer program mean: which compilation is run, on which layout, and what is written where. An option
   that is not given reads "-" (numbers: -1), an option given without a value reads "".                                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
T == INSTANCE Text
None == "-"
Has(rows, ch) == \E i \in DOMAIN rows : \E k \in 1..Len(rows[i]) : SubSeq(rows[i], k, k) = ch

\* ---- the layout: -L names a generator and wins over -l, which names a file; without either the compact layout is generated
Generator(o) == IF o.L # None THEN o.L ELSE IF o.lay # None THEN "file" ELSE "compact"
Compact(o) == Generator(o) \in {"compact", "compact_no_clogging"}
Lanes(o) == IF o.lanes = -1 THEN 1 ELSE o.lanes
Database(o) == o.I \in {"p", "pandora"}
Gates(o) == o.I \in {"q", "qasm"} \/ Database(o)
Layout(o) ==
  LET n == Len(o.core) IN
  CASE Compact(o) -> [gen |-> "compact", n |-> n, nc |-> Generator(o) = "compact_no_clogging"]
    [] Generator(o) = "edpc" -> [gen |-> "edpc", n |-> n, lanes |-> Lanes(o), cond |-> o.cond = 1, fact |-> o.fact, pre |-> o.notwists]
    [] OTHER -> [rows |-> o.rows]
\* compact layouts have cells for the ancillas of controlled gates, text layouts may have; elsewhere the ancilla goes next to the target
OwnAncillas(o) == Compact(o) \/ (Generator(o) = "file" /\ Has(o.rows, "A"))

\* ---- what is refused
BadValue(o) ==
  \/ o.L \notin {None, "compact", "compact_no_clogging", "edpc"}
  \/ o.I \notin {None, "lli", "l", "qasm", "q", "pandora", "p"}
  \/ o.f \notin {None, "progress", "noprogress", "machine", "stats"}
  \/ o.P \notin {None, "", "stream", "wave", "dag", "edpc"}
  \/ o.r \notin {None, "graph_search", "graph_search_cached"}
  \/ o.g \notin {None, "djikstra", "astar", "boost"}
  \/ o.printlli \notin {None, "", "before", "sliced"}
  \/ o.printdag \notin {None, "", "input", "processedlli"}
  \/ Gates(o) /\ o.corr \notin {None, "never", "always"}
MissingFile(o) == o.input = "missing" \/ (o.L = None /\ o.lay = "missing")
\* the database is asked for on the port given, or on PostgreSQL's own
Unreachable(o) == Database(o) /\ (IF o.port \in {None, ""} THEN "5432" ELSE o.port) # o.dbport
Unsupported(o) ==
  \/ o.f # None /\ ~o.out /\ ~o.noslices
  \/ o.notwists /\ (Compact(o) \/ (Generator(o) = "file" /\ ~Has(o.rows, "Y")))
  \/ o.P = "edpc" /\ ~(Generator(o) = "edpc" /\ o.local /\ Lanes(o) = 1)
Refused(o) == BadValue(o) \/ MissingFile(o) \/ Unsupported(o) \/ Unreachable(o)
\* a program that only prints its input may do so without looking at everything else
PrintsInput(o) == o.printdag \in {"", "input"}
PrintsList(o) == o.printlli \in {"", "before"} \/ o.printdag = "processedlli"
Unsettled(o) == \/ Refused(o) /\ (PrintsInput(o) \/ PrintsList(o))
                \/ PrintsInput(o) /\ o.printlli # None
                \/ o.printdag = "processedlli" /\ o.printlli # None

\* ---- what is run
Rewriting(o) == CASE Compact(o) -> <<"rot", "tele">>
                  [] Generator(o) = "edpc" -> IF o.notwists THEN <<"catrot">> ELSE <<"telerot">>
                  [] OTHER -> <<>>
\* ids made up by the compiler start after the declared ones
Start(o) == CHOOSE k \in 0..100000 : (\A i \in ToSet(o.core) : i < k) /\ (k = 0 \/ k - 1 \in ToSet(o.core))
Job(o) ==
  [layout |-> Layout(o), dt |-> IF o.dt = -1 THEN 10 ELSE o.dt, stag |-> ~o.nostagger, src |-> o.src, inj |-> Rewriting(o),
   pipe |-> IF o.P \in {None, ""} THEN "stream" ELSE o.P, local |-> o.local, twists |-> ~o.notwists,
   router |-> IF o.r = "graph_search_cached" THEN "cached" ELSE "custom", gs |-> IF o.g \in {None, "djikstra"} THEN "dij" ELSE o.g,
   opids |-> (o.opids \/ Database(o)), graceful |-> o.graceful, corr |-> o.corr = "always", anc |-> IF OwnAncillas(o) THEN "D" ELSE "T", idstart |-> Start(o)]
\* only the instructions as they are read
Raw(o) == [src |-> o.src, decomp |-> FALSE, anc |-> "D", idstart |-> 0]

\* ---- what is written where: `what` goes to the sink `to`, the summary always to the terminal
Sink(o) == IF o.out THEN "file" ELSE "out"
Shows(o) == IF o.printlli = "sliced" THEN "lists" ELSE IF o.noslices THEN "nothing" ELSE "slices"
Summary(o) == IF ~o.out /\ ~o.noslices THEN "none" ELSE IF o.f = None THEN "progress" ELSE o.f
Meaning(o) ==
  CASE Unsettled(o) -> [kind |-> "any"]
    [] Refused(o) -> [kind |-> "refuse"]
    [] PrintsInput(o) -> [kind |-> IF Gates(o) THEN "gatedag" ELSE "dag", job |-> Raw(o)]
    [] o.printdag = "processedlli" -> [kind |-> "dag", job |-> Job(o)]
    [] PrintsList(o) -> [kind |-> "list", job |-> Job(o)]
    [] OTHER -> [kind |-> "run", job |-> Job(o), what |-> Shows(o), to |-> Sink(o), summary |-> Summary(o)]

\* ---- the written text
RECURSIVE Trim(_)
Trim(ls) == IF ls = <<>> \/ Last(ls) # "" THEN ls ELSE Trim(SubSeq(ls, 1, Len(ls) - 1))
\* summary lines fit a pattern: text up to the time taken
SummaryFits(kind, ls, ic, sc, stats) ==
  LET i == T!Decimal(ic) s == T!Decimal(sc)
      head == /\ Len(ls) >= 3 /\ ls[1] = "LS Instructions read  " \o i /\ ls[2] = "Slices " \o s /\ T!HasPrefix(ls[3], "Made patch computation. Took ")
  IN CASE kind \in {"none", "noprogress"} -> ls = <<>>
       [] kind = "machine" -> Len(ls) = 1 /\ T!HasPrefix(ls[1], i \o "," \o s \o ",")
       [] kind = "progress" -> head /\ Len(ls) = 3
       [] OTHER -> head /\ Trim(SubSeq(ls, 4, Len(ls))) = Trim(stats)
=============================================================================
