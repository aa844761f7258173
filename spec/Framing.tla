------------------------------- MODULE Framing -------------------------------
(* Filterbank framing (fbank.cc). Frame i (from 0) of an instance covers samples Shift*i+1 .. Shift*i+Length *)
(* of everything the instance was fed; every call emits the frames it completes. What a frame looks like is  *)
(* given by ref: start position -> what a fresh instance computes from that window alone.                     *)
EXTENDS Integers, Sequences
CONSTANTS Shift, Length
VARIABLES ref,     \* window start (0-based sample number) -> frame
          n,       \* instance -> number of samples fed
          e        \* instance -> number of frames emitted
frVars == <<ref, n, e>>

Frames(k) == IF k < Length THEN 0 ELSE 1 + (k - Length) \div Shift
FInit == ref = << >> /\ n = << >> /\ e = << >>
(* instance i gets m more samples and emits rows *)
Feed(i, m, rows) ==
  /\ n' = [n EXCEPT ![i] = @ + m]
  /\ e' = [e EXCEPT ![i] = Frames(n'[i])]
  /\ rows = [k \in 1 .. Frames(n'[i]) - e[i] |-> ref[Shift * (e[i] + k - 1)]]
  /\ ref' = ref
(* A fresh instance fed a, then m, then b samples of a wave that repeats every p samples (a multiple of     *)
(* Shift): how many frames each call emits, and the frames, which repeat too. w[j]: the window from j - 1.  *)
Bulk(p, w, a, m, b, cnt, head, brk) ==
  /\ cnt = <<Frames(a), Frames(a + m) - Frames(a), Frames(a + m + b) - Frames(a + m)>>
  /\ Len(w) = p \div Shift
  /\ LET t == Frames(a + m + b) IN head = SubSeq(w, 1, IF t < Len(w) THEN t ELSE Len(w))
  /\ brk = -1
FrInv == \A i \in DOMAIN n : e[i] = Frames(n[i])
=============================================================================
