------------------------------ MODULE BackoffLm ------------------------------
(* Backoff language models (fst.h: Fst, LmFst, DeltaLmFst, CachedFst). An LM is                       *)
(*   [start, arcs, fin]  arcs[s+1] = sequence of <<ilabel, next, weight, olabel>> of state s,          *)
(*                       label 0 = backoff arc;  fin[s+1] = final cost or Inf.                         *)
(* Weights are integers.                                                                               *)
EXTENDS Integers, Sequences

Inf == 999999
NoArc == << >>

ArcsOf(lm, s) == lm.arcs[s + 1]
(* Fst::GetArc: the arc with that label in the state *)
FstArc(lm, s, x) ==
  LET as == ArcsOf(lm, s)
      hit == {i \in 1 .. Len(as) : as[i][1] = x}
  IN IF hit = {} THEN NoArc ELSE as[CHOOSE i \in hit : TRUE]
FstFinal(lm, s) == lm.fin[s + 1]

Backoff(lm, s) == FstArc(lm, s, 0)
AddW(a, w) == <<a[1], a[2], a[3] + w, a[4]>>

(* LmFst::GetArc *)
RECURSIVE LmArc(_, _, _)
LmArc(lm, s, x) ==
  LET a == FstArc(lm, s, x)
      b == Backoff(lm, s)
  IN IF a # NoArc THEN a
     ELSE IF b = NoArc THEN NoArc
     ELSE LET r == LmArc(lm, b[2], x) IN IF r = NoArc THEN NoArc ELSE AddW(r, b[3])
RECURSIVE LmFinal(_, _)
LmFinal(lm, s) ==
  LET f == FstFinal(lm, s)
      b == Backoff(lm, s)
  IN IF f # Inf THEN f
     ELSE IF b = NoArc THEN Inf
     ELSE LET r == LmFinal(lm, b[2]) IN IF r = Inf THEN Inf ELSE r + b[3]

(* DeltaLmFst: big LM minus the unigram cost small[x+1] of every word *)
DeltaStart(lm, bos) == LET a == LmArc(lm, lm.start, bos) IN IF a = NoArc THEN lm.start ELSE a[2]
DeltaArc(lm, small, s, x) == LET a == LmArc(lm, s, x) IN IF a = NoArc THEN NoArc ELSE AddW(a, 0 - small[x + 1])
DeltaFinal(lm, small, eos, s) ==
  LET a == LmArc(lm, s, eos)
  IN IF a = NoArc \/ LmFinal(lm, a[2]) = Inf THEN Inf ELSE LmFinal(lm, a[2]) + a[3] - small[eos + 1]

(* The ARPA reading of the same thing: the chain of ever shorter histories, the first one that knows  *)
(* the word decides, and the backoff weights on the way to it are added.                               *)
RECURSIVE Chain(_, _)
Chain(lm, s) == LET b == Backoff(lm, s) IN IF b = NoArc THEN <<s>> ELSE <<s>> \o Chain(lm, b[2])
RECURSIVE SumBackoff(_, _, _)
SumBackoff(lm, c, n) == IF n = 0 THEN 0 ELSE Backoff(lm, c[n])[3] + SumBackoff(lm, c, n - 1)
ArpaCost(lm, s, x) ==
  LET c == Chain(lm, s)
      k == {i \in 1 .. Len(c) : FstArc(lm, c[i], x) # NoArc}
  IN IF k = {} THEN Inf
     ELSE LET i == CHOOSE j \in k : \A q \in k : j <= q
          IN FstArc(lm, c[i], x)[3] + SumBackoff(lm, c, i - 1)
=============================================================================
