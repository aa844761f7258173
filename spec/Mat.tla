--------------------------------- MODULE Mat ---------------------------------
(* Value semantics of the engine's vectors and matrices: a matrix is a value [r, c, d] with d a sequence
   of rows; views (Range, Row) are rectangles of a matrix, an operation on a view changes exactly the
   cells of its rectangle. *)
EXTENDS Integers, Sequences

Empty == [r |-> 0, c |-> 0, d |-> << >>]
Fill(r, c, v) == IF r = 0 \/ c = 0 THEN Empty ELSE [r |-> r, c |-> c, d |-> [i \in 1..r |-> [j \in 1..c |-> v]]]
Min2(a, b) == IF a < b THEN a ELSE b

ResizeCopy(m, r, c) ==
  IF r = 0 \/ c = 0 THEN Empty
  ELSE [r |-> r, c |-> c,
        d |-> [i \in 1..r |-> [j \in 1..c |-> IF i <= m.r /\ j <= m.c THEN m.d[i][j] ELSE 0]]]
(* kind: 0 zero-fill, 1 undefined (filled with 5 by the caller), 2 keep shared positions *)
Resized(m, r, c, kind) ==
  CASE kind = 0 -> Fill(r, c, 0)
    [] kind = 1 -> Fill(r, c, 5)
    [] OTHER -> ResizeCopy(m, r, c)

(* rectangles: [ro, r, co, c], offsets from 0 *)
InRect(R, i, j) == i > R.ro /\ i <= R.ro + R.r /\ j > R.co /\ j <= R.co + R.c
Within(m, R) == R.ro >= 0 /\ R.co >= 0 /\ R.ro + R.r <= m.r /\ R.co + R.c <= m.c
Whole(m) == [ro |-> 0, r |-> m.r, co |-> 0, c |-> m.c]
View(m, R) == [i \in 1..R.r |-> [j \in 1..R.c |-> m.d[R.ro + i][R.co + j]]]
(* replace the cells of R by the rows v *)
Put(m, R, v) ==
  [m EXCEPT !.d = [i \in 1..m.r |-> [j \in 1..m.c |->
     IF InRect(R, i, j) THEN v[i - R.ro][j - R.co] ELSE m.d[i][j]]]]

MapV(v, F(_)) == [i \in 1..Len(v) |-> F(v[i])]
Rows(v) == Len(v)
Cols(v) == IF v = << >> THEN 0 ELSE Len(v[1])
Transposed(v) == [i \in 1..Cols(v) |-> [j \in 1..Rows(v) |-> v[j][i]]]
RECURSIVE DotFrom(_, _, _)
DotFrom(a, b, i) == IF i > Len(a) THEN 0 ELSE a[i] * b[i] + DotFrom(a, b, i + 1)
Dot(a, b) == DotFrom(a, b, 1)
Product(a, b) ==
  LET bt == Transposed(b) IN [i \in 1..Rows(a) |-> [j \in 1..Cols(b) |-> Dot(a[i], bt[j])]]

VecResized(v, n, kind) ==
  CASE kind = 0 -> [i \in 1..n |-> 0]
    [] kind = 1 -> [i \in 1..n |-> 5]
    [] OTHER -> [i \in 1..n |-> IF i <= Len(v) THEN v[i] ELSE 0]
Sub(v, o, n) == SubSeq(v, o + 1, o + n)
PutVec(v, o, x) == [i \in 1..Len(v) |-> IF i > o /\ i <= o + Len(x) THEN x[i - o] ELSE v[i]]
Max2(a, b) == IF a > b THEN a ELSE b
CountBelow(v, f) == LET S == {i \in 1..Len(v) : v[i] < f} IN S
=============================================================================
