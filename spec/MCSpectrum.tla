------------------------------ MODULE MCSpectrum ------------------------------
(* The tables satisfy the identities that define them, and the transform its laws.                        *)
EXTENDS Spectrum, TLC
VARIABLES j
Init == j \in 0 .. 1023
Next == UNCHANGED j
Spec == Init /\ [][Next]_j
C(k) == Cos14[(k % 1024) + 1]
S(k) == Cos14[((k + 768) % 1024) + 1]
R14(x) == Round(x, 16384)
Near2(a, b, t) == Mag(a - b) <= t
CosTable ==
  /\ Cos24[1] = 16777216 /\ Cos24[257] = 0 /\ Cos24[513] = -16777216 /\ Cos24[129] \in 11863282 .. 11863284
  /\ Near2(R14(C(j) * C(j) + S(j) * S(j)), 16384, 2)
  /\ \A d \in {1, 2, 7, 64, 100, 255, 300} : Near2(C(j + d), R14(C(j) * C(d) - S(j) * S(d)), 3)
  \* smooth: second differences of the finer table are -(2 pi / 1024)^2 cos
  /\ Near2(Cos24[((j + 1) % 1024) + 1] + Cos24[((j + 1023) % 1024) + 1] - 2 * Cos24[j + 1], 0 - Round(Cos14[j + 1] * 1024, 26561), 3)
(* window: 0.54 - 0.46 cos(2 pi i / 399): ends, middle and the recurrence w(i+1) + w(i-1) - 1.08 = 2 cos(a) (w(i) - .54) *)
WinTable ==
  /\ Len(Win) = 400 /\ Win[1] = 1311 /\ Win[400] = 1311
  /\ j \in 2 .. 399 => Near2(Win[j + 1] + Win[j - 1] - 2 * Win[j], 0 - Round((Win[j] - 8847), 4033), 2)
(* mel: 1127 ln(1 + f / 700) *)
MelTable ==
  /\ Mel[1] = 0
  /\ j \in 1 .. 255 =>
       LET q == 229 + 10 * (j - 1)
           t == Round(92323840, q)                  \* 2 * 1127 * 8192 * 5 / q
       IN Near2(Mel[j + 1] - Mel[j], t + Round(t * 25, 3 * q * q), 2)
  /\ MelLow > Mel[1] /\ MelLow < Mel[2] /\ Near2(MelHigh - Mel[256], Round(92323840, 229 + 2550), 4)
  /\ Near2(MelLow, 260082, 60)       \* ln(1 + 1/35) = 0.02817
(* every bin inside belongs to one or two filters, with weights that sum to one *)
Bank == j \in 2 .. 250 =>
          LET w == Sum([b \in 1 .. Filters |-> MelW(b, j)]) IN (j > 3 /\ Mel[j + 1] < MelHigh - (MelHigh - MelLow) \div 41 => Near2(w, 1024, 12))
(* forward then backward gives n times the sequence *)
Seqs == {<<0, 5>>, <<1, -3>>, <<2, 7>>, <<5, 1>>, <<7, 4>>}
Inverse == j < 64 =>
  LET n == IF j % 2 = 0 THEN 8 ELSE 16
      x == SelectSeq(<<<<0, 5>>, <<1, -3>>, <<2, 7>>, <<5, 1>>, <<7, 4>>, <<(j % 8), 2>>>>, LAMBDA e : e[1] # j % 5)
      f == [i \in 1 .. n |-> <<i - 1, Round(Forward(Cos14, n, x)[i], 128)>>]          \* * 2^7
      b == Backward(Cos14, n, f)                                                     \* * 2^21
      v(p) == Sum([i \in 1 .. Len(x) |-> IF x[i][1] = p THEN x[i][2] ELSE 0])
  IN \A p \in 0 .. n - 1 : Near2(Round(b[p + 1], 2097152), n * v(p), 2)
=============================================================================
