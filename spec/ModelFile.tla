------------------------------ MODULE ModelFile ------------------------------
(* The binary model file formats, byte by byte. A reader applied at position p (1-based) of the bytes b   *)
(* yields [ok, next, val]: ok FALSE = error status, next = position behind the section, val = the content *)
(* (numbers as their stored bytes).                                                                       *)
EXTENDS Integers, Sequences

Fail == [ok |-> FALSE, next |-> 0, val |-> << >>]
Done(n, v) == [ok |-> TRUE, next |-> n, val |-> v]
Has(b, p, n) == n >= 0 /\ p - 1 <= Len(b) - n
Bytes(b, p, n) == SubSeq(b, p, p + n - 1)
I32(b, p) == b[p] + 256 * b[p + 1] + 65536 * b[p + 2] + 16777216 * (IF b[p + 3] >= 128 THEN b[p + 3] - 256 ELSE b[p + 3])
MaxInt == 2147483647

VEC0 == <<86, 69, 67, 48>>
MAT0 == <<77, 65, 84, 48>>
NN02 == <<78, 78, 48, 50>>
LAY0 == <<76, 65, 89, 48>>
FSTNAME == <<112, 107, 58, 58, 102, 115, 116, 95, 48, 0>>      \* "pk::fst_0"
Tag(b, p, t) == Has(b, p, Len(t)) /\ Bytes(b, p, Len(t)) = t

(* VEC0, size = dim * es + 4, dim, dim elements of es bytes *)
ReadVec(b, p, es) ==
  IF ~Tag(b, p, VEC0) \/ ~Has(b, p, 12) THEN Fail
  ELSE LET size == I32(b, p + 4)
           dim == I32(b, p + 8)
       IN IF dim < 0 \/ size < 4 \/ (size - 4) % es # 0 \/ dim # (size - 4) \div es THEN Fail
          ELSE IF dim > (Len(b) - (p + 11)) \div es THEN Fail
          ELSE Done(p + 12 + es * dim, [i \in 1 .. dim |-> Bytes(b, p + 12 + es * (i - 1), es)])

(* MAT0, size (not used), rows, columns, one vector per row *)
RECURSIVE ReadRows(_, _, _, _, _, _)
ReadRows(b, p, n, cols, es, acc) ==
  IF n = 0 THEN Done(p, acc)
  ELSE LET v == ReadVec(b, p, es)
       IN IF ~v.ok THEN Fail
          ELSE IF Len(v.val) # cols THEN Fail
          ELSE ReadRows(b, v.next, n - 1, cols, es, Append(acc, v.val))
ReadMat(b, p, es) ==
  IF ~Tag(b, p, MAT0) \/ ~Has(b, p, 16) THEN Fail
  ELSE LET rows == I32(b, p + 8)
           cols == I32(b, p + 12)
       IN IF rows < 0 \/ cols < 0 \/ (rows = 0) # (cols = 0) THEN Fail
          ELSE IF cols > 0 /\ rows > MaxInt \div cols THEN Fail
          ELSE ReadRows(b, p + 16, rows, cols, es, << >>)

(* 32 bytes of name, size, states, arcs, start, finals, first arc of each state, arcs of 16 bytes *)
ReadFst(b, p) ==
  IF ~Has(b, p, 48) THEN Fail
  ELSE IF Bytes(b, p, 10) # FSTNAME THEN Fail
  ELSE LET size == I32(b, p + 32)
           ns == I32(b, p + 36)
           na == I32(b, p + 40)
       IN IF ns < 0 \/ na < 0 \/ ns >= 268435456 \/ na >= 134217728 THEN Fail
          ELSE IF size < 12 \/ 8 * ns > size - 12 \/ 16 * na # size - 12 - 8 * ns THEN Fail
          ELSE IF ~Has(b, p + 48, 8 * ns + 16 * na) THEN Fail
          ELSE Done(p + 48 + 8 * ns + 16 * na,
                    [start |-> I32(b, p + 44),
                     fin |-> [i \in 1 .. ns |-> Bytes(b, p + 48 + 4 * (i - 1), 4)],
                     idx |-> [i \in 1 .. ns |-> I32(b, p + 48 + 4 * ns + 4 * (i - 1))],
                     arcs |-> [i \in 1 .. na |-> Bytes(b, p + 48 + 8 * ns + 16 * (i - 1), 16)]])
(* the arcs of state s (1-based): from its first arc up to the first arc of the next state that has any *)
ArcsOf(f, s) ==
  IF f.idx[s] < 0 THEN << >>
  ELSE LET later == {f.idx[k] : k \in {j \in s + 1 .. Len(f.idx) : f.idx[j] >= 0}}
           e == IF later = {} THEN Len(f.arcs) ELSE CHOOSE m \in later : \A x \in later : m <= x
       IN SubSeq(f.arcs, f.idx[s] + 1, e)

(* NN02, left, right, number of layers, layers: LAY0, type, parameters *)
LayerTypes == {0, 1, 2, 3, 6, 7, 8, 9}
ReadTwo(b, p, first) ==       \* a vector follows
  IF ~first.ok THEN Fail
  ELSE LET v == ReadVec(b, first.next, 4) IN IF ~v.ok THEN Fail ELSE Done(v.next, <<first.val, v.val>>)
ReadLayer(b, p) ==
  IF ~Tag(b, p, LAY0) \/ ~Has(b, p, 8) THEN Fail
  ELSE LET t == I32(b, p + 4)
           q == p + 8
       IN CASE t = 0 -> ReadTwo(b, q, ReadMat(b, q, 4))
            [] t = 7 -> ReadTwo(b, q, ReadVec(b, q, 4))
            [] t = 6 -> IF ~Has(b, q, 4) THEN Fail
                        ELSE LET n == I32(b, q) IN
                             IF n < 0 \/ n > (Len(b) - (q + 3)) \div 4 THEN Fail
                             ELSE Done(q + 4 + 4 * n, [i \in 1 .. n |-> I32(b, q + 4 * i)])
            [] t = 9 -> IF Has(b, q, 8) THEN Done(q + 8, <<I32(b, q), I32(b, q + 4)>>) ELSE Fail
            [] t \in {1, 2, 3, 8} -> Done(q, << >>)
            [] OTHER -> Fail
RECURSIVE ReadLayers(_, _, _, _)
ReadLayers(b, p, n, acc) ==
  IF n = 0 THEN Done(p, acc)
  ELSE LET y == ReadLayer(b, p) IN IF ~y.ok THEN Fail ELSE ReadLayers(b, y.next, n - 1, Append(acc, <<I32(b, p + 4), y.val>>))
ReadNet(b, p) ==
  IF ~Tag(b, p, NN02) \/ ~Has(b, p, 16) THEN Fail
  ELSE LET n == I32(b, p + 12)
       IN IF n < 0 \/ n > Len(b) THEN Fail
          ELSE LET y == ReadLayers(b, p + 16, n, << >>)
               IN IF ~y.ok THEN Fail ELSE Done(y.next, [left |-> I32(b, p + 4), right |-> I32(b, p + 8), layers |-> y.val])

Read(kind, b, p) ==
  CASE kind = "vecf" -> ReadVec(b, p, 4)
    [] kind = "veci" -> ReadVec(b, p, 4)
    [] kind = "vecd" -> ReadVec(b, p, 8)
    [] kind = "vecb" -> ReadVec(b, p, 1)
    [] kind = "matf" -> ReadMat(b, p, 4)
    [] kind = "matd" -> ReadMat(b, p, 8)
    [] kind = "fst" -> ReadFst(b, p)
    [] OTHER -> ReadNet(b, p)
=============================================================================
