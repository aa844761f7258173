------------------------------- MODULE MCBigNat -------------------------------
(* The arithmetic against TLC's integers, and the float relation on floats whose values are integers.    *)
EXTENDS BigNat, TLC
CONSTANT Nums, Small
VARIABLES a, b
vars == <<a, b>>
Init == a \in Nums /\ b \in Nums
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
RECURSIVE Val(_)
Val(x) == IF x = <<>> THEN 0 ELSE Head(x) + Base * Val(Tail(x))
Big(x) == Norm(Nat2Big(x))
Arith == /\ Val(Big(a)) = a
         /\ Val(Add(Big(a), Big(b))) = a + b
         /\ (b \in Small /\ a < 200000 => Val(Mul(Big(a), b)) = a * b)
         /\ Leq(Big(a), Big(b)) = (a <= b)
         /\ (a < 20000 => Val(Times10(Big(a), 5)) = 100000 * a /\ Val(Times2(Big(a), 16)) = 65536 * a)
         /\ (b \in Small => Far(Big(a), Big(b), Big(3)) = ~(a - b \in -3 .. 3))
(* the float with mantissa 2^23 + m: exactly that integer; its neighbours are not near it *)
FloatOf(m) == <<m % 256, (m \div 256) % 256, (m \div 65536) % 128, 75>>      \* exponent 150: units
Fl == a < 8388608 /\ b < 8388608 =>
        /\ FMant(FloatOf(a)) = 8388608 + a
        /\ Nearest(FloatOf(a), FALSE, Big(8388608 + b), 0) = (a = b)
        /\ ~Nearest(FloatOf(a), TRUE, Big(8388608 + a), 0)
        /\ Nearest(FloatOf(a), FALSE, Times10(Big(8388608 + a), 3), -3)
=============================================================================
