------------------------------- MODULE LliMC --------------------------------
(* Lines built word by word: every name with operands that fit, and with one operand that does not. What a line denotes is
   printed as a text that denotes the same; a line with a misfit or too few operands denotes nothing; aliases agree.          *)
EXTENDS LliSpec, TLC, Json, IOUtils
Num(s) == CHOOSE k \in 0..100000 : ToString(k) = s
Every == Num(IOEnv.MCEVERY)
VARIABLES w, bad
vars == <<w, bad>>
Names == {"DeclareLogicalQubitPatches", "Init", "0", "MeasureSinglePatch", "1", "MultiBodyMeasure", "2", "RequestMagicState", "3", "LogicalPauli", "4",
          "HGate", "5", "SGate", "6", "XGate", "YGate", "ZGate", "RotateSingleCellPatch", "7", "BellPairInit", "8", "RequestYState", "9", "BellBasedCNOT", "10", "Reset"}
Strange == {"", "11", "-1", "init", "Gate", "HGates", "Hgate", "00", "BusyRegion", "#"}
Ids == {"0", "7", "4294967295"}
Paulis == {"I", "X", "Y", "Z"}
Fit(k, j) == CASE k = "decl" -> {"7", "0,1", "5,3,4"}
               [] k = "mpm" -> {"7:X,3:Z", "0:Y", "1:Z,2:Z,3:X", "4:I,0:X"}
               [] k = "bell" /\ j = 3 -> {"7:X,3:Z", "0:Z,0:X"}
               [] k = "init" /\ j = 2 -> {"|0>", "0", "|+>", "+"}
               [] k = "init" /\ j = 3 -> {"4:X", "0:Z"}
               [] k \in {"meas"} /\ j = 2 -> Paulis
               [] k = "pauli" /\ j = 2 -> Paulis \ {"I"}
               [] OTHER -> Ids
Misfits == {"", "4294967296", "99999999999", "12a", "a", "-1", "+1", " ", "1.0", "0x1", "x", "XX", "-X", "|->", "|1>", "7:X", "7:Q", "7:", ":X", "7:X:Z", "7:X,", ",7:X", "7:X;3:Z", "7:X,3:Z", "7:X,3:Z,4:Y", "7,", "7,,8", "[X"}
Most(k) == Arity(k) + (IF k = "init" THEN 1 ELSE 0)
MisfitsOf(k, j) == {m \in Misfits \cup (IF k = "pauli" /\ j = 2 THEN {"I"} ELSE {}) : ~(m \in Fit(k, j)) /\ ~(k = "mpm" /\ m \in {"7:X", "7:X,3:Z", "7:X,3:Z,4:Y"}) /\ ~(k = "decl" /\ m = "") /\ ~(k = "mpm" /\ m = "") /\ ~(k = "bell" /\ j = 3 /\ m = "7:X,3:Z")
                                                /\ ~(k = "init" /\ j = 3 /\ m = "7:X")}
Init == w \in {<<n>> : n \in Names \cup Strange} /\ bad = (w[1] \in Strange)
Next == LET k == Kind(w[1]) j == Len(w) IN
        /\ k # "none" /\ j <= Most(k)
        /\ \/ \E f \in Fit(k, j) : w' = Append(w, f) /\ bad' = bad
           \/ ~bad /\ \E m \in MisfitsOf(k, j) : w' = Append(w, m) /\ bad' = TRUE
Spec == Init /\ [][Next]_vars
Text1 == JoinWith(w, " ")
D == Denotes(Text1)
Complete == Kind(w[1]) # "none" /\ Len(w) > Arity(Kind(w[1]))
ReadIff == (D.r = "ins") <=> (Complete /\ ~bad)
Big(q) == \E j \in DOMAIN q : q[j] = "4294967295"
RoundTrip == D.r = "ins" /\ ~Big(w) => Denotes(Shown(D.i)) = D /\ Readable(D.i) /\ Core(D.i) = D.i
Alias(n) == CASE n = "0" -> "Init" [] n = "1" -> "MeasureSinglePatch" [] n = "2" -> "MultiBodyMeasure" [] n = "3" -> "RequestMagicState" [] n = "4" -> "LogicalPauli" [] n = "5" -> "HGate"
              [] n = "6" -> "SGate" [] n = "7" -> "RotateSingleCellPatch" [] n = "8" -> "BellPairInit" [] n = "9" -> "RequestYState" [] n = "10" -> "BellBasedCNOT" [] OTHER -> n
Aliases == D = Denotes(JoinWith([w EXCEPT ![1] = Alias(w[1])], " "))
Emit == Every = 0 \/ (TLCGet("distinct") % Every # 0) \/ PrintT("STATE|" \o ToJson([line |-> Text1]))
=============================================================================
