-------------------------------- MODULE Layers --------------------------------
(* The neural network layers (nnet.cc) on integer matrices: a matrix is a non-empty sequence of rows. *)
(* A layer is a record with t in {"linear", "relu", "splice", "narrow", "bn"} (exact, a function) or   *)
(* t in {"norm", "softmax", "logsoftmax"} (a relation between input and rounded output).               *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL INSTANCE SequencesExt

Abs(x) == IF x < 0 THEN 0 - x ELSE x
Clamp(i, n) == IF i < 1 THEN 1 ELSE IF i > n THEN n ELSE i
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
SumSeq(s) == SumTo(s, Len(s))

\* w: one row per input element, one column per output element
LinRow(l, x) == [j \in 1 .. Len(l.b) |-> SumSeq([i \in 1 .. Len(x) |-> x[i] * l.w[i][j]]) + l.b[j]]
Linear(l, X) == [r \in 1 .. Len(X) |-> LinRow(l, X[r])]
Relu(X) == [r \in 1 .. Len(X) |-> [c \in 1 .. Len(X[r]) |-> IF X[r][c] < 0 THEN 0 ELSE X[r][c]]]
BatchNorm(l, X) == [r \in 1 .. Len(X) |-> [c \in 1 .. Len(X[r]) |-> X[r][c] * l.s[c] + l.o[c]]]
Splice(l, X) == [r \in 1 .. Len(X) |-> FlattenSeq([k \in 1 .. Len(l.ix) |-> X[Clamp(r + l.ix[k], Len(X))]])]
\* with no row left over, narrowing leaves the input as it is
Narrow(l, X) == IF Len(X) <= l.l + l.r THEN X ELSE SubSeq(X, l.l + 1, Len(X) - l.r)

Exact(l) == l.t \in {"linear", "relu", "splice", "narrow", "bn"}
Apply(l, X) == CASE l.t = "linear" -> Linear(l, X)
                 [] l.t = "relu" -> Relu(X)
                 [] l.t = "bn" -> BatchNorm(l, X)
                 [] l.t = "splice" -> Splice(l, X)
                 [] OTHER -> Narrow(l, X)
RECURSIVE ApplyAll(_, _)
ApplyAll(ls, X) == IF ls = << >> THEN X ELSE ApplyAll(Tail(ls), Apply(Head(ls), X))

----
(* Normalize: y = x * sqrt(n / sum x^2); y in units of 1/Unit, rounded. Compared through squares:       *)
(* y^2 * sum x^2 = n * x^2, and the sign is kept.                                                      *)
Unit == 1024
SignOf(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
NormRow(x, y) ==
  LET n == Len(x)
      ss == SumSeq([i \in 1 .. n |-> x[i] * x[i]])
      \* bracket: |y| - 2 <= Unit * |x| * sqrt(n / ss) <= |y| + 2, squared and divided by Unit
      lo(v) == IF v <= 2 THEN 0 ELSE v - 2
      hi(v) == v + 2
  IN /\ Len(y) = n
     /\ ss > 0
     /\ \A i \in 1 .. n :
          /\ (Abs(y[i]) > 2 => SignOf(y[i]) = SignOf(x[i]))
          /\ ((lo(Abs(y[i])) * lo(Abs(y[i]))) \div Unit) * ss <= n * x[i] * x[i] * Unit
          /\ n * x[i] * x[i] * Unit <= ((hi(Abs(y[i])) * hi(Abs(y[i]))) \div Unit + 1) * ss

(* Softmax in units of 2^-20: sums to one, order and ties preserved, and neighbours differ by e^(x-x'). *)
One == 1048576
ExpTab == <<1048576, 385750, 141909, 52206, 19205, 7065, 2599, 956, 352, 129, 48, 18, 6, 2, 1, 0, 0>>  \* 2^20 e^-k
ExpNeg(k) == IF k >= Len(ExpTab) THEN 0 ELSE ExpTab[k + 1]
Top(x) == CHOOSE m \in {x[i] : i \in 1 .. Len(x)} : \A i \in 1 .. Len(x) : x[i] <= m
SoftmaxRow(x, y) ==
  LET n == Len(x)
      d == [i \in 1 .. n |-> ExpNeg(Top(x) - x[i])]
      S == SumSeq(d) \div 1024                \* sum of e^(x-max), units 2^-10
  IN /\ Len(y) = n
     /\ Abs(SumSeq(y) - One) <= n + 16
     /\ \A i \in 1 .. n : y[i] >= 0 /\ y[i] <= One + 16
     \* y * sum = e^(x-max)
     /\ \A i \in 1 .. n : LET p == (y[i] \div 1024) * S IN Abs(p - d[i]) <= 2048 * (n + 1)
     /\ \A i, j \in 1 .. n : (x[i] = x[j] => y[i] = y[j]) /\ (x[i] < x[j] => y[i] <= y[j])
(* Log-softmax: y in units of 2^-10, ey = exp(y) in units of 2^-20 (computed by the observer).          *)
LogSoftmaxRow(x, y, ey) ==
  /\ Len(y) = Len(x)
  /\ Abs(SumSeq(ey) - One) <= 512
  /\ \A i, j \in 1 .. Len(x) : Abs((y[i] - y[j]) - 1024 * (x[i] - x[j])) <= 3
  /\ \A i \in 1 .. Len(x) : y[i] <= 1

----
(* The receptive field: how many rows a stack of layers needs to the left and right of a row, when the  *)
(* rows a Splice cannot compute are removed by a following Narrow. A stack is well-formed when every     *)
(* row it produces depends on the true neighbours only, whatever surrounds them.                        *)
LeftCut(ls) == SumSeq([i \in 1 .. Len(ls) |-> IF ls[i].t = "narrow" THEN ls[i].l ELSE 0])
RightCut(ls) == SumSeq([i \in 1 .. Len(ls) |-> IF ls[i].t = "narrow" THEN ls[i].r ELSE 0])
=============================================================================
