-------------------------------- MODULE Text --------------------------------
(* Strings as texts: splitting, decimal numbers, joining. *)
EXTENDS Integers, Sequences
At(s, i) == SubSeq(s, i, i)
RECURSIVE FindFrom(_, _, _)
FindFrom(s, ch, i) == IF i > Len(s) THEN 0 ELSE IF At(s, i) = ch THEN i ELSE FindFrom(s, ch, i + 1)
Find(s, ch) == FindFrom(s, ch, 1)
After(s, i) == SubSeq(s, i + 1, Len(s))
Before(s, i) == SubSeq(s, 1, i - 1)
(* the fields of a text between separators; the empty text has one empty field *)
RECURSIVE Fields(_, _)
Fields(s, ch) == LET k == Find(s, ch) IN IF k = 0 THEN <<s>> ELSE <<Before(s, k)>> \o Fields(After(s, k), ch)
HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
RECURSIVE Occurs(_, _)
Occurs(s, p) == HasPrefix(s, p) \/ (Len(s) > Len(p) /\ Occurs(After(s, 1), p))
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(ch) == \E d \in 1..10 : Digits[d] = ch
DigitVal(ch) == (CHOOSE d \in 1..10 : Digits[d] = ch) - 1
IsNumber(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(At(s, i))
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ At(s, 1) = "0" THEN NoZeros(After(s, 1)) ELSE s
RECURSIVE DigitsLeq(_, _)
DigitsLeq(a, b) == Len(a) = 0 \/ DigitVal(At(a, 1)) < DigitVal(At(b, 1)) \/ (At(a, 1) = At(b, 1) /\ DigitsLeq(After(a, 1), After(b, 1)))
(* numbers beyond a billion are recorded as -1 *)
RECURSIVE Val(_)
Val(s) == IF Len(s) = 0 THEN 0 ELSE 10 * Val(SubSeq(s, 1, Len(s) - 1)) + DigitVal(At(s, Len(s)))
ValC(s) == LET z == NoZeros(s) IN IF Len(z) <= 9 THEN Val(z) ELSE IF z = "1000000000" THEN 1000000000 ELSE 0 - 1
FitsIn(s, max) == LET z == NoZeros(s) IN Len(z) < Len(max) \/ (Len(z) = Len(max) /\ DigitsLeq(z, max))
RECURSIVE Decimal(_)
Decimal(n) == IF n < 0 THEN "?" ELSE IF n < 10 THEN Digits[n + 1] ELSE Decimal(n \div 10) \o Digits[(n % 10) + 1]
RECURSIVE JoinWith(_, _)
JoinWith(q, sep) == IF Len(q) = 0 THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o JoinWith(Tail(q), sep)
RECURSIVE StripL(_)
StripL(s) == IF Len(s) > 0 /\ At(s, 1) = " " THEN StripL(After(s, 1)) ELSE s
RECURSIVE StripR(_)
StripR(s) == IF Len(s) > 0 /\ At(s, Len(s)) = " " THEN StripR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == StripR(StripL(s))
=============================================================================
