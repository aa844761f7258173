------------------------------- MODULE Batching -------------------------------
(* Acoustic scoring (am.cc). Required: row t of the output is the network applied to the window of     *)
(* frames t-left .. t+right (clamped to the utterance) minus the log prior; rows are emitted chunk by    *)
(* chunk as soon as chunk rows have their right context, the rest at the end of the stream.              *)
EXTENDS Layers
VARIABLES am,      \* [left, right, chunk, net, prior]
          fed,     \* frames so far
          emitted, \* number of rows emitted
          ended
batVars == <<am, fed, emitted, ended>>

Window(fs, t, L, R) == [k \in 1 .. L + R + 1 |-> fs[Clamp(t - L + k - 1, Len(fs))]]
Score(fs, t) ==
  LET y == ApplyAll(am.net, Window(fs, t, am.left, am.right))
  IN IF Len(y) # 1 THEN << >> ELSE [i \in 1 .. Len(y[1]) |-> y[1][i] - am.prior[i]]
Scores(fs, a, b) == [k \in 1 .. (IF b < a THEN 0 ELSE b - a + 1) |-> Score(fs, a + k - 1)]

BInit == am = [left |-> 0, right |-> 0, chunk |-> 1, net |-> << >>, prior |-> << >>] /\ fed = << >> /\ emitted = 0 /\ ended = FALSE
Start == fed' = << >> /\ emitted' = 0 /\ ended' = FALSE /\ am' = am
(* rows that must come out with the frame that makes Len(fs) frames *)
Due(n, e) == IF n - am.right - e >= am.chunk THEN am.chunk ELSE 0
Feed(f, rows) ==
  LET fs == Append(fed, f)
      d == Due(Len(fs), emitted)
  IN /\ ~ended
     /\ fed' = fs /\ emitted' = emitted + d /\ ended' = FALSE /\ am' = am
     /\ rows = Scores(fs, emitted + 1, emitted + d)
(* once more: nothing is left *)
End(rows) ==
  /\ rows = IF ended THEN << >> ELSE Scores(fed, emitted + 1, Len(fed))
  /\ emitted' = Len(fed) /\ ended' = TRUE /\ fed' = fed /\ am' = am
=============================================================================
