--------------------------------- MODULE Cmvn ---------------------------------
(* Online mean normalisation (cmvn.cc). Frame t (1-based) minus the mean of the last Window frames, the       *)
(* statistics being completed with at most GlobalFrames frames' worth of the global mean while there are less. *)
(* raw values and the global mean gm are integers; out is in units of 1/Unit.                                  *)
EXTENDS Integers, Sequences
CONSTANTS Window, GlobalFrames, Unit
VARIABLES raw,     \* all raw frames
          gm,      \* global mean per dimension
          t,       \* frames delivered
          sum      \* running sum of the window
cmVars == <<raw, gm, t, sum>>
Min2(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Dim == Len(gm)
RECURSIVE SumRange(_, _, _)
SumRange(d, a, b) == IF b < a THEN 0 ELSE raw[b][d] + SumRange(d, a, b - 1)
WindowSum(k) == [d \in 1 .. Dim |-> SumRange(d, IF k > Window THEN k - Window + 1 ELSE 1, k)]
CInit == raw = << >> /\ gm = << >> /\ t = 0 /\ sum = << >>
Load(r, g) == raw' = r /\ gm' = g /\ t' = 0 /\ sum' = [d \in 1 .. Len(g) |-> 0]
Extra(n) == IF n < Window THEN Min2(Window - n, GlobalFrames) ELSE 0
(* |out - Unit * (raw - mean)| <= 2, multiplied by the number of frames in the statistics *)
Right(k, s, out) ==
  LET n == Min2(k, Window)
      x == Extra(n)
      c == n + x
  IN \A d \in 1 .. Dim : Abs((Unit * raw[k][d] - out[d]) * c - Unit * (s[d] + x * gm[d])) <= 2 * c
Frame(out) ==
  /\ t < Len(raw)
  /\ t' = t + 1
  /\ sum' = [d \in 1 .. Dim |-> sum[d] + raw[t + 1][d] - (IF t + 1 > Window THEN raw[t + 1 - Window][d] ELSE 0)]
  /\ Len(out) = Dim /\ Right(t + 1, sum', out)
  /\ UNCHANGED <<raw, gm>>
=============================================================================
