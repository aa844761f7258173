------------------------------ MODULE Strings ------------------------------
(* The text helpers and the error reports of the engine. A text is a sequence of byte codes.             *)
EXTENDS Text

(* ------------------------------------------------------------------ searching *)
IsAt(s, d, i) == i + Len(d) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(d) - 1) = d
(* first place of d in s at or behind position `from`; 0 when there is none *)
FindFrom(s, d, from) ==
  LET S == {i \in from .. Len(s) - Len(d) + 1 : IsAt(s, d, i)} IN IF S = {} THEN 0 ELSE FirstOf(S)
Has(s, d) == FindFrom(s, d, 1) # 0
(* places of d in s, leftmost first, not overlapping *)
RECURSIVE PlacesFrom(_, _, _)
PlacesFrom(s, d, from) ==
  LET p == FindFrom(s, d, from) IN IF p = 0 THEN <<>> ELSE <<p>> \o PlacesFrom(s, d, p + Len(d))
Places(s, d) == PlacesFrom(s, d, 1)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

(* ------------------------------------------------------------------ Split *)
(* the texts between the delimiters; a text that ends in a delimiter has no field behind it *)
Split(s, d) ==
  LET P == Places(s, d)
      n == Len(P)
      from(k) == IF k = 1 THEN 1 ELSE P[k - 1] + Len(d)
  IN [k \in 1 .. n |-> SubSeq(s, from(k), P[k] - 1)]
     \o (IF from(n + 1) > Len(s) THEN <<>> ELSE <<SubSeq(s, from(n + 1), Len(s))>>)

(* ------------------------------------------------------------------ Format *)
Brace == <<123, 125>>
(* the k-th {} of the format becomes the k-th argument, whatever the arguments contain *)
Format(f, args) ==
  LET P == Places(f, Brace)
      n == IF Len(P) < Len(args) THEN Len(P) ELSE Len(args)
      from(k) == IF k = 1 THEN 1 ELSE P[k - 1] + 2
      piece(k) == SubSeq(f, from(k), P[k] - 1) \o args[k]
  IN Cat([k \in 1 .. n |-> piece(k)]) \o SubSeq(f, from(n + 1), Len(f))

(* ------------------------------------------------------------------ StringToLong *)
HexVal(c) == IF Digit(c) THEN c - 48 ELSE IF c \in 97 .. 102 THEN c - 87 ELSE IF c \in 65 .. 70 THEN c - 55 ELSE 99
AllIn(s, b) == s # <<>> /\ \A i \in 1 .. Len(s) : HexVal(s[i]) < b
RECURSIVE InBase(_, _)
InBase(s, b) == IF s = <<>> THEN 0 ELSE b * InBase(SubSeq(s, 1, Len(s) - 1), b) + HexVal(s[Len(s)])
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
(* a number as it is written in C, with blanks around: its decimal spelling, "bad" or "open" (0b...) *)
LongOf(raw) ==
  LET s == Trim(raw)
      neg == s # <<>> /\ Head(s) = 45
      b == IF s # <<>> /\ Head(s) \in {43, 45} THEN Tail(s) ELSE s
      hex == Len(b) >= 2 /\ b[1] = 48 /\ b[2] \in {88, 120}
      oct == ~hex /\ Len(b) >= 2 /\ b[1] = 48
      d == IF hex THEN SubSeq(b, 3, Len(b)) ELSE b
      base == IF hex THEN 16 ELSE IF oct THEN 8 ELSE 10
      z == NoZeros(d)
      t == IF base = 10 THEN z ELSE Dec(InBase(z, base))
  IN IF Occurs(raw, 0) # {} \/ (Len(b) >= 2 /\ b[1] = 48 /\ b[2] \in {66, 98}) THEN [k |-> "open", t |-> <<>>]
     ELSE IF ~AllIn(d, base) THEN [k |-> "bad", t |-> <<>>]
     ELSE IF (base = 10 /\ Len(z) > 18) \/ (base = 16 /\ Len(z) > 7) \/ (base = 8 /\ Len(z) > 10) THEN [k |-> "open", t |-> <<>>]
     ELSE [k |-> "int", t |-> IF neg /\ t # <<48>> THEN <<45>> \o t ELSE t]

(* ------------------------------------------------------------------ pasco_strlcpy *)
CStr(s) == LET Z == Occurs(s, 0) IN IF Z = {} THEN s ELSE SubSeq(s, 1, FirstOf(Z) - 1)
Copied(s, size) == SubSeq(s, 1, IF Len(s) < size - 1 THEN Len(s) ELSE size - 1)
(* buffer `was` after copying s into its first `size` places, as far as it is determined *)
CopyOk(was, s, size, now, ret) ==
  /\ ret = Len(s) /\ Len(now) = Len(was)
  /\ \A i \in size + 1 .. Len(was) : now[i] = was[i]
  /\ size > 0 => LET c == Copied(s, size) IN SubSeq(now, 1, Len(c)) = c /\ now[Len(c) + 1] = 0

(* ------------------------------------------------------------------ error reports *)
(* of a configuration that was refused: its file, and the line that was refused first *)
ConfReport(P, raw, name, msg) ==
  LET B == {i \in 1 .. Len(P) : P[i].k = "bad"}
  IN Has(msg, name) /\ (B # {} => Has(msg, Trim(raw[FirstOf(B)])))
=============================================================================
