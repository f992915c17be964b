------------------------------- MODULE QasmMC -------------------------------
(* Statements built part by part. Every complete statement of the documented dialect denotes one thing, statements with a
   part that does not belong denote nothing, and writing a gate back denotes the same gate.                               *)
EXTENDS QasmSpec, TLC, Json, IOUtils
Num(s) == CHOOSE k \in 0..100000 : ToString(k) = s
Every == Num(IOEnv.MCEVERY)
Most == Num(IOEnv.MCARGS)         \* operands per statement
VARIABLES name, args, tail, bad
vars == <<name, args, tail, bad>>
Good1 == Singles \cup {"reset", "qreg", "rz(pi/4)", "rz(3*pi/8)", "rz(-pi/2)", "rz(-5*pi/16)", "rz(3*pi)", "rz(2*pi)", "rz(-pi/1)", "rz(pi*-1)", "rz(2*pi/4)", "rz(0*pi/3)"}
Good2 == {"cx", "cz", "crz(pi/4)", "crz(pi/16)"}
BadNames == {"measure", "id", "ccx", "swap", "rx(pi/2)", "rzz(pi/4)", "rzx(pi/2)", "u1(pi/4)", "rz", "crz", "rz()", "rz(0.5)", "rz(e/4)", "rz(pi/)", "rz(pi/x)", "rz(--pi/2)", "rz(pi/2/2)", "rz(/4)", "X", "Cx", "hh", "gate", "if(c==1)", "xx", "sx"}
Ops == {"q[0]", "q[3]", "anc[12]", "q[1]"}
BadOps == {"", "q", "q[]", "q[x]", "q[-1]", "q[1.5]", "q[4294967296]", "0", "q(1)"}
Tails == {";", "; // %ZXWithMBMTargetFirst", "; // %AncillaFreePlacement,BellBased", "; // %AncillaNextToTarget,ZXWithMBMControlFirst", "; // %AncillaNextToControl", "; // a comment", ";// %BellBased", "; // AncillaNextToTarget"}
Init == /\ name \in Good1 \cup Good2 \cup BadNames /\ args = <<>> /\ tail = "" /\ bad = (name \in BadNames)
Next == /\ tail = "" /\ UNCHANGED name
        /\ \/ /\ Len(args) < Most /\ UNCHANGED tail
              /\ \/ \E o \in Ops : args' = Append(args, o) /\ bad' = bad
                 \/ ~bad /\ \E o \in BadOps : args' = Append(args, o) /\ bad' = TRUE
           \/ args # <<>> /\ tail' \in Tails /\ UNCHANGED <<args, bad>>
Spec == Init /\ [][Next]_vars
Line == name \o " " \o JoinWith(args, ",") \o tail
D == Denotes(Line, "C")
Ctl == name \in Good2
Want == IF name \in Good2 THEN 2 ELSE 1
Distinct == \A i, j \in DOMAIN args : i < j => args[i] # args[j]
\* complete, exact statements are read; broken ones are not
Reads == tail # "" /\ ~bad /\ Len(args) = Want /\ Distinct /\ tail # ";// %BellBased" => D.r \in {"gate", "qreg"} \/ (name \in {"rz(2*pi)", "rz(0*pi/3)"} /\ D.r \in {"maybe", "gate"})
Refuses == tail # "" /\ (bad \/ (name \in {"cx", "cz", "reset", "qreg"} /\ Len(args) # Want)) => D.r \in {"err"} \cup (IF Len(args) > Want /\ name \notin BadNames THEN {"any"} ELSE {})
Text1(g) == LET op(q) == "q[" \o Decimal(q) \o "]" ang == "(" \o (IF g.neg THEN "-" ELSE "") \o Decimal(g.n) \o "*pi/" \o Decimal(g.d) \o ")"
                nm == IF g.g = "rz" THEN "rz" \o ang ELSE IF g.g = "crz" THEN "crz(pi/" \o Decimal(g.d) \o ")" ELSE g.g
                note == IF "c" \notin DOMAIN g THEN "" ELSE " // %" \o (CHOOSE t \in DOMAIN Types : Types[t] = g.ct) \o "," \o (CHOOSE t \in DOMAIN Places : Places[t] = g.ap)
            IN nm \o " " \o (IF "c" \in DOMAIN g THEN op(g.c) \o "," ELSE "") \o op(g.q) \o ";" \o note
WritesBack == D.r = "gate" /\ D.g.g # "reset" => Denotes(Text1(D.g), "T") = D
Emit == Every = 0 \/ tail = "" \/ (TLCGet("distinct") % Every # 0) \/ PrintT("STATE|" \o ToJson([line |-> Line]))
=============================================================================
