------------------------------ MODULE BatchImpl ------------------------------
(* The algorithm of AcousticModel (queue of frames with the first frame repeated left times, batches of  *)
(* left + chunk + right frames through the network, right padding at the end) refines Batching, for every *)
(* network over the layer alphabet, every context and chunk size and every utterance up to a length.     *)
EXTENDS Batching, TLC
CONSTANTS MaxT, MaxCtx, MaxChunk, FrameVals,
          ClearQueue       \* FALSE: as before repair, a second end computes the last rows again (negative control)
VARIABLES q, out, want
vars == <<batVars, q, out, want>>
LOCAL INSTANCE SequencesExt

Sp(a, b) == [t |-> "splice", ix |-> [k \in 1 .. a + b + 1 |-> k - 1 - a]]
Na(a, b) == [t |-> "narrow", l |-> a, r |-> b]
Li == [t |-> "linear", w |-> << <<3>> >>, b |-> <<1>>]
(* a linear layer over the spliced row with a different weight for every position *)
LiN(n) == [t |-> "linear", w |-> [k \in 1 .. n |-> <<2 ^ (2 * (k - 1))>>], b |-> <<1>>]
Stage(a, b) == <<Sp(a, b), LiN(a + b + 1), Na(a, b)>>
Nets == {[left |-> a, right |-> b, net |-> Stage(a, b)] : a \in 0 .. MaxCtx, b \in 0 .. MaxCtx}
   \cup {[left |-> a + c, right |-> b + d, net |-> Stage(a, b) \o <<[t |-> "relu"]>> \o Stage(c, d)] :
           a \in 0 .. 1, b \in 0 .. 1, c \in 0 .. 1, d \in 0 .. 1}
   \* all splices first, one narrow at the end
   \cup {[left |-> a + c, right |-> b + d, net |-> <<Sp(a, b), LiN(a + b + 1), Sp(c, d), LiN(c + d + 1), Na(a + c, b + d)>>] :
           a \in 0 .. 1, b \in 0 .. 1, c \in 0 .. 1, d \in 0 .. 1}

Init == /\ \E n \in Nets, ch \in 1 .. MaxChunk :
             am = [left |-> n.left, right |-> n.right, chunk |-> ch, net |-> n.net, prior |-> <<2>>]
        /\ fed = << >> /\ emitted = 0 /\ ended = FALSE /\ q = << >> /\ out = << >> /\ want = << >>
MinusPrior(Y) == [r \in 1 .. Len(Y) |-> [i \in 1 .. Len(Y[r]) |-> Y[r][i] - am.prior[i]]]
Batch(qq, n) == MinusPrior(ApplyAll(am.net, SubSeq(qq, 1, n + am.left + am.right)))
DoFeed(f) ==
  LET q1 == (IF fed = << >> THEN [k \in 1 .. am.left |-> f] ELSE q) \o <<f>>
      go == Len(q1) >= am.left + am.right + am.chunk
      rows == IF go THEN Batch(q1, am.chunk) ELSE << >>
  IN /\ Len(fed) < MaxT /\ ~ended
     /\ fed' = Append(fed, f)
     /\ q' = IF go THEN SubSeq(q1, am.chunk + 1, Len(q1)) ELSE q1
     /\ out' = out \o rows
     /\ emitted' = emitted + Len(rows)
     /\ want' = want \o Scores(fed', emitted + 1, emitted + Due(Len(fed'), emitted))
     /\ UNCHANGED <<am, ended>>
DoEnd ==
  LET q1 == q \o [k \in 1 .. am.right |-> q[Len(q)]]
      n == Len(q1) - am.left - am.right
      rows == IF q = << >> \/ n <= 0 THEN << >> ELSE Batch(q1, n)
  IN /\ ended' = TRUE
     /\ out' = out \o rows /\ emitted' = emitted + Len(rows)
     /\ want' = want \o (IF ended THEN << >> ELSE Scores(fed, emitted + 1, Len(fed)))
     /\ q' = IF rows # << >> /\ ClearQueue THEN << >> ELSE q
     /\ UNCHANGED <<am, fed>>
Next == (\E f \in FrameVals : DoFeed(<<f>>)) \/ DoEnd
Spec == Init /\ [][Next]_vars
Refines == out = want
Complete == ended => out = Scores(fed, 1, Len(fed)) /\ emitted = Len(fed)
QueueBounded == Len(q) <= am.left + am.right + am.chunk
=============================================================================
