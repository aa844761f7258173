-------------------------------- MODULE Quant --------------------------------
(* 8-bit quantisation (matrix.cc): a matrix of integers whose values lie between lo and hi is               *)
(* represented by 256 levels lo .. hi in steps of (hi - lo) / 255. All values here are integers; steps are  *)
(* kept as the numerator hi - lo.                                                                        *)
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt
QAbs(x) == IF x < 0 THEN 0 - x ELSE x
QSum(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
Flat(M) == FlattenSeq(M)
Lo(M) == LET f == Flat(M) IN FoldLeft(LAMBDA x, y : IF y < x THEN y ELSE x, f[1], f)
Hi(M) == LET f == Flat(M) IN FoldLeft(LAMBDA x, y : IF y > x THEN y ELSE x, f[1], f)
(* the range of the levels reaches at most from the values to zero *)
Span(M) == LET h == IF Hi(M) > 0 THEN Hi(M) ELSE 0
               l == IF Lo(M) < 0 THEN Lo(M) ELSE 0
           IN IF h = l THEN 255 ELSE h - l
\* every value is a level (also zero)
Representable(M) == Span(M) % 255 = 0 /\ Lo(M) <= 0 /\ Hi(M) >= 0 /\ LET k == Span(M) \div 255 IN
                      Lo(M) % k = 0 /\ \A i \in 1 .. Len(M) : \A j \in 1 .. Len(M[i]) : (M[i][j] - Lo(M)) % k = 0
Product(A, B) == [i \in 1 .. Len(A) |-> [j \in 1 .. Len(B[1]) |-> QSum([k \in 1 .. Len(B) |-> A[i][k] * B[k][j]])]]
(* 64 times the error a product may have: half a step of A or B per factor                                *)
Slack(A, B, i, j) ==
  LET ra == Span(A)
      rb == Span(B)
      one == QSum([k \in 1 .. Len(B) |-> QAbs(A[i][k]) * rb + QAbs(B[k][j]) * ra])
  IN (64 * one) \div 510 + (64 * Len(B) * ra * rb) \div 260100
(* Q: the levels of a matrix in 0 .. 255; D: the values they stand for, (q - zero point) * step, * 64:       *)
(* at most half a step off                                                                               *)
QuantOk(M, Q, D) ==
  \A i \in 1 .. Len(M) : \A j \in 1 .. Len(M[i]) :
     /\ Q[i][j] \in 0 .. 255
     /\ QAbs(64 * M[i][j] - D[i][j]) <= (32 * Span(M)) \div 255 + 1
=============================================================================
