------------------------------ MODULE QasmSpec ------------------------------
(* OpenQASMmin: what each line denotes. "any" marks spellings outside the documented dialect that a reader may take or refuse. *)
EXTENDS Integers, Text, TLC
Err == [r |-> "err"]
Loose == [r |-> "any"]
Skip == [r |-> "skip"]
Gate(g) == [r |-> "gate", g |-> g]
Maybe(g) == [r |-> "maybe", g |-> g]            \* may be refused, but must not be read as anything else
MaxQubit == "4294967295"
Singles == {"x", "y", "z", "s", "t", "h", "sdg", "tdg"}
Headers == {"OPENQASM", "include", "creg", "barrier"}

(* an operand: name[index] *)
IsOperand(s) == LET i == Find(s, "[") j == Find(s, "]") IN
                i > 1 /\ j = Len(s) /\ IsNumber(SubSeq(s, i + 1, j - 1)) /\ FitsIn(SubSeq(s, i + 1, j - 1), MaxQubit) /\ Find(Before(s, i), " ") = 0
Index(s) == ValC(SubSeq(s, Find(s, "[") + 1, Len(s) - 1))
Reg(s) == Before(s, Find(s, "["))
Inner(s) == LET a == After(s, Find(s, "[")) b == IF Find(a, "[") = 0 THEN a ELSE Before(a, Find(a, "[")) IN IF Find(b, "]") = 0 THEN b ELSE Before(b, Find(b, "]"))
Broken(s) == \/ Find(s, "[") = 0
             \/ LET t == Strip(Inner(s)) IN t = "" \/ \E i \in 1..Len(t) : ~IsDigit(At(t, i)) /\ ~(i = 1 /\ At(t, i) = "+" /\ Len(t) > 1)
             \/ LET t == Strip(Inner(s)) IN IsNumber(t) /\ ~FitsIn(t, MaxQubit)

(* angles: fractions of pi. sign, numerator, denominator *)
Small(s) == IsNumber(s) /\ Len(NoZeros(s)) <= 9
A(n, d, neg) == [ok |-> TRUE, n |-> n, d |-> d, neg |-> neg]
Unsigned(s, neg) ==
  LET k == Find(s, "*") IN
  IF HasPrefix(s, "pi/") THEN (IF Small(After(s, 3)) THEN A(1, Val(NoZeros(After(s, 3))), neg) ELSE [ok |-> FALSE])
  ELSE IF k = 0 \/ ~Small(Before(s, k)) THEN [ok |-> FALSE]
  ELSE LET n == Val(NoZeros(Before(s, k))) r == After(s, k) IN
       IF r = "pi" THEN A(n, 1, neg) ELSE IF HasPrefix(r, "pi/") /\ Small(After(r, 3)) THEN A(n, Val(NoZeros(After(r, 3))), neg) ELSE [ok |-> FALSE]
Angle(s) == IF HasPrefix(s, "-") THEN Unsigned(After(s, 1), TRUE) ELSE Unsigned(s, FALSE)
AngleBroken(s) == \/ ~Occurs(s, "pi") \/ HasSuffix(s, "/") \/ HasPrefix(s, "--")
                  \/ \E i \in 1..Len(s) : ~IsDigit(At(s, i)) /\ At(s, i) \notin {"p", "i", "*", "/", "-", "+", " "}
                  \/ Len(Fields(s, "/")) > 2

(* style annotations of controlled gates *)
Types == [ZXWithMBMControlFirst |-> "CF", ZXWithMBMTargetFirst |-> "TF", BellBased |-> "BELL"]
Places == [AncillaFreePlacement |-> "D", AncillaNextToControl |-> "C", AncillaNextToTarget |-> "T"]
Notes(rest) == IF HasPrefix(rest, " // %") THEN Fields(After(rest, 5), ",") ELSE <<>>
NotesOk(rest) ==
  \/ rest = ""
  \/ HasPrefix(StripL(rest), "//") /\ ~Occurs(rest, "%")
  \/ HasPrefix(rest, " // %") /\ LET q == Notes(rest) IN
       /\ \A i \in DOMAIN q : q[i] \in DOMAIN Types \cup DOMAIN Places
       /\ \A i, j \in DOMAIN q : i < j => ~({q[i], q[j]} \subseteq DOMAIN Types) /\ ~({q[i], q[j]} \subseteq DOMAIN Places)
TypeOf(rest) == LET q == Notes(rest) S == {i \in DOMAIN q : q[i] \in DOMAIN Types} IN IF S = {} THEN "CF" ELSE Types[q[CHOOSE i \in S : TRUE]]
PlaceOf(rest, default) == LET q == Notes(rest) S == {i \in DOMAIN q : q[i] \in DOMAIN Places} IN IF S = {} THEN default ELSE Places[q[CHOOSE i \in S : TRUE]]

One(g, q) == [g |-> g, q |-> q, n |-> 0, d |-> 0, neg |-> FALSE]
Rz(g, q, a) == [g |-> g, q |-> q, n |-> a.n, d |-> a.d, neg |-> a.neg]
Two(t, c, rest, default) == [c |-> c, ct |-> TypeOf(rest), ap |-> PlaceOf(rest, default)] @@ t

Denotes(line, default) ==
  LET s == StripL(line) semi == Find(s, ";")
      head == IF semi = 0 THEN s ELSE Before(s, semi)
      rest == IF semi = 0 THEN "" ELSE After(s, semi)
      k == Find(head, " ")
      name == Before(head, k)
      args == LET f == Fields(After(head, k), ",") IN [j \in DOMAIN f |-> StripL(f[j])]
      exact == semi # 0 /\ \A j \in DOMAIN args : IsOperand(args[j])
      broken == \E j \in DOMAIN args : Broken(args[j])
      more == rest # "" /\ ~HasPrefix(StripL(rest), "//") /\ Strip(rest) # ""    \* a second statement
  IN IF s = "" \/ HasPrefix(s, "//") THEN Skip
     ELSE IF Find(s, " ") = 0 THEN (IF s \in Headers \/ Find(s, "\t") # 0 THEN Loose ELSE Err)
     ELSE IF k = 0 THEN (IF head \in Headers \/ Find(s, "\t") # 0 THEN Loose ELSE Err)
     ELSE IF Find(s, "\t") # 0 \/ Find(s, "\r") # 0 \/ more THEN Loose
     ELSE IF name \in Headers THEN Skip
     ELSE IF name \in Singles \cup {"reset", "qreg"} THEN
       (IF Broken(args[1]) \/ (name \in {"reset", "qreg"} /\ Len(args) # 1) THEN Err
        ELSE IF Len(args) # 1 \/ ~exact THEN Loose
        ELSE IF name = "reset" THEN Gate([g |-> "reset", q |-> Index(args[1]), reg |-> Reg(args[1])])
        ELSE IF name = "qreg" THEN [r |-> "qreg", name |-> Reg(args[1]), n |-> Index(args[1])]
        ELSE Gate(One(name, Index(args[1]))))
     ELSE IF name \in {"cx", "cz"} THEN
       (IF Len(args) # 2 \/ broken THEN Err
        ELSE IF ~exact \/ Index(args[1]) = Index(args[2]) \/ ~NotesOk(rest) THEN Loose
        ELSE Gate(Two(One(name, Index(args[2])), Index(args[1]), rest, default)))
     ELSE IF HasPrefix(name, "rz(") \/ HasPrefix(name, "crz(") THEN
       LET ctl == HasPrefix(name, "crz(") p == Find(name, "(") IN
       IF Find(name, ")") # Len(name) THEN Loose
       ELSE LET ang == SubSeq(name, p + 1, Len(name) - 1) a == Angle(ang) IN
            IF (~ctl /\ Broken(args[1])) \/ (ctl /\ (Len(args) < 2 \/ Broken(args[1]) \/ Broken(args[2]))) THEN Err
            ELSE IF ang # "pi*-1" /\ ~a.ok /\ AngleBroken(ang) THEN Err
            ELSE IF ~exact \/ Len(args) # (IF ctl THEN 2 ELSE 1) \/ (ctl /\ (Index(args[1]) = Index(args[2]) \/ ~NotesOk(rest))) THEN Loose
            ELSE IF ang = "pi*-1" THEN (IF ctl THEN Loose ELSE Gate(One("z", Index(args[1]))))
            ELSE IF ~a.ok \/ a.d = 0 THEN Loose
            ELSE IF ctl THEN (IF HasPrefix(ang, "pi/") THEN Gate(Two(Rz("crz", Index(args[2]), a), Index(args[1]), rest, default)) ELSE Maybe(Two(Rz("crz", Index(args[2]), a), Index(args[1]), rest, default)))
            ELSE IF a.d = 1 THEN (IF a.n % 2 = 1 THEN Gate(One("z", Index(args[1]))) ELSE Maybe(Rz("rz", Index(args[1]), a)))   \* odd multiples of pi are Z up to phase
            ELSE Gate(Rz("rz", Index(args[1]), a))
     ELSE Err
=============================================================================
