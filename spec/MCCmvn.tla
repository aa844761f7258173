-------------------------------- MODULE MCCmvn --------------------------------
(* The running sum is the sum over the window at every frame, and the output is determined (up to rounding) *)
EXTENDS Cmvn, TLC
CONSTANTS MaxT, Vals
Init == /\ raw \in UNION {[1 .. k -> {<<v>> : v \in Vals}] : k \in 1 .. MaxT} /\ gm \in {<<v>> : v \in Vals} /\ t = 0 /\ sum = <<0>>
\* the exact value, rounded down
Ideal == LET k == t + 1
             n == Min2(k, Window)
             x == Extra(n)
             s == sum[1] + raw[k][1] - (IF k > Window THEN raw[k - Window][1] ELSE 0)
         IN <<Unit * raw[k][1] - (Unit * (s + x * gm[1])) \div (n + x)>>
Next == t < Len(raw) /\ Frame(Ideal)
Spec == Init /\ [][Next]_cmVars
SlidingSum == t > 0 => sum = WindowSum(t)
(* frames older than the window have no influence, and Frame is always possible *)
Possible == t < Len(raw) => ENABLED Next
=============================================================================
