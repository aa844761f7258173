-------------------------------- MODULE BigNat --------------------------------
(* Natural numbers of any size (little-endian digits, base 10^4), decimal texts, and the relation        *)
(* between a decimal text and the 32-bit float that represents it.                                       *)
EXTENDS Integers, Sequences

Base == 10000
RECURSIVE Norm(_)
Norm(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE Nat2Big(_)
Nat2Big(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o Nat2Big(n \div Base)
RECURSIVE MulFrom(_, _, _)
MulFrom(a, k, c) == IF a = <<>> THEN Nat2Big(c)
                    ELSE LET v == Head(a) * k + c IN <<v % Base>> \o MulFrom(Tail(a), k, v \div Base)
\* k <= 100000
Mul(a, k) == IF k = 0 THEN <<>> ELSE MulFrom(a, k, 0)
RECURSIVE AddFrom(_, _, _)
AddFrom(a, b, c) ==
  IF a = <<>> /\ b = <<>> THEN Nat2Big(c)
  ELSE LET v == (IF a = <<>> THEN 0 ELSE Head(a)) + (IF b = <<>> THEN 0 ELSE Head(b)) + c
       IN <<v % Base>> \o AddFrom(IF a = <<>> THEN a ELSE Tail(a), IF b = <<>> THEN b ELSE Tail(b), v \div Base)
Add(a, b) == AddFrom(a, b, 0)
RECURSIVE LeqSame(_, _)
LeqSame(a, b) == IF a = <<>> THEN TRUE
                 ELSE LET n == Len(a) IN
                      IF a[n] # b[n] THEN a[n] < b[n] ELSE LeqSame(SubSeq(a, 1, n - 1), SubSeq(b, 1, n - 1))
\* both without leading zeros
Leq(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LeqSame(a, b)
RECURSIVE Times10(_, _)
Times10(a, k) == IF k = 0 \/ a = <<>> THEN a
                 ELSE IF k >= 4 THEN Times10(<<0>> \o a, k - 4)
                 ELSE Times10(Mul(a, 10), k - 1)
RECURSIVE Times2(_, _)
Times2(a, k) == IF k = 0 THEN a ELSE IF k >= 16 THEN Times2(Mul(a, 65536), k - 16)
                ELSE IF k >= 4 THEN Times2(Mul(a, 16), k - 4) ELSE Times2(Mul(a, 2), k - 1)
Far(a, b, tol) == ~(Leq(a, Add(b, tol)) /\ Leq(b, Add(a, tol)))

----
(* decimal texts: sign digits [. digits] [e sign digits]  ->  [neg, big digits, exponent of ten] *)
DigitsOnly(s) == s # <<>> /\ \A i \in 1 .. Len(s) : s[i] \in 48 .. 57
RECURSIVE DigitsBig(_, _)
DigitsBig(s, acc) == IF s = <<>> THEN Norm(acc) ELSE DigitsBig(Tail(s), Norm(Add(Mul(acc, 10), Nat2Big(Head(s) - 48))))
RECURSIVE SmallVal(_)
SmallVal(s) == IF s = <<>> THEN 0 ELSE 10 * SmallVal(SubSeq(s, 1, Len(s) - 1)) + (s[Len(s)] - 48)
At(s, C) == LET S == {i \in 1 .. Len(s) : s[i] \in C} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
NoDec == [ok |-> FALSE, neg |-> FALSE, d |-> <<>>, e |-> 0]
Unsigned(s) == IF s # <<>> /\ Head(s) \in {43, 45} THEN Tail(s) ELSE s
Minus(s) == s # <<>> /\ Head(s) = 45
Decimal(s) ==
  LET ep == At(s, {69, 101})
      m == Unsigned(IF ep = 0 THEN s ELSE SubSeq(s, 1, ep - 1))
      x == IF ep = 0 THEN <<48>> ELSE SubSeq(s, ep + 1, Len(s))
      dp == At(m, {46})
      ip == IF dp = 0 THEN m ELSE SubSeq(m, 1, dp - 1)
      fp == IF dp = 0 THEN <<>> ELSE SubSeq(m, dp + 1, Len(m))
  IN IF DigitsOnly(ip) /\ (dp = 0 \/ DigitsOnly(fp)) /\ DigitsOnly(Unsigned(x)) /\ Len(x) < 6
     THEN [ok |-> TRUE, neg |-> Minus(s), d |-> DigitsBig(ip \o fp, <<>>),
           e |-> (IF Minus(x) THEN 0 - SmallVal(Unsigned(x)) ELSE SmallVal(Unsigned(x))) - Len(fp)]
     ELSE NoDec

----
(* a 32-bit float: bytes, least significant first *)
FExp(b) == 2 * (b[4] % 128) + (b[3] \div 128)
FMant(b) == (IF FExp(b) = 0 THEN 0 ELSE 8388608) + 65536 * (b[3] % 128) + 256 * b[2] + b[1]
FNeg(b) == b[4] >= 128
FFinite(b) == FExp(b) < 255
FInf(b) == b = <<0, 0, 128, 127>>
FZero(b) == FExp(b) = 0 /\ FMant(b) = 0
Pos(x) == IF x > 0 THEN x ELSE 0
(* the float b is a nearest float of sign * D * 10^e (a little more than half a unit in the last place,   *)
(* as the number may have been rounded to a double before)                                               *)
Nearest(b, neg, D, e) ==
  IF D = <<>> THEN FZero(b)
  ELSE LET x == FExp(b) - 150
           A == Times10(Times2(D, Pos(0 - x) + 10), Pos(e))
           U == Times10(Times2(<<1>>, Pos(x)), Pos(0 - e))          \* one unit in the last place, /1024
           B == Times2(Times10(Times2(Nat2Big(FMant(b)), Pos(x)), Pos(0 - e)), 10)
       IN /\ FFinite(b) /\ FNeg(b) = neg
          /\ ~Far(A, B, Mul(U, 513))
NearText(b, s) == LET t == Decimal(s) IN t.ok /\ Nearest(b, t.neg, t.d, t.e)
=============================================================================
