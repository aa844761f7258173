-------------------------------- MODULE Text --------------------------------
(* Text files and the two line formats of the engine: configuration files (key=value) and symbol      *)
(* tables (word id). A text is a sequence of byte codes (or of runs <<code, count>> for long files).  *)
EXTENDS Integers, Sequences

LF == 10
CR == 13
RECURSIVE Chop(_)
(* without trailing carriage returns *)
Chop(s) == IF s # <<>> /\ s[Len(s)] = CR THEN Chop(SubSeq(s, 1, Len(s) - 1)) ELSE s

(* the lines of a text, without terminators *)
Lines(b) ==
  LET nl == SelectSeq([i \in 1 .. Len(b) |-> i], LAMBDA i : b[i] = LF)
      from(k) == IF k = 1 THEN 1 ELSE nl[k - 1] + 1
      n == Len(nl)
  IN [k \in 1 .. n |-> Chop(SubSeq(b, from(k), nl[k] - 1))]
     \o (IF from(n + 1) > Len(b) THEN <<>> ELSE <<Chop(SubSeq(b, from(n + 1), Len(b)))>>)

(* the same for runs (adjacent runs have different codes) *)
ChopR(s) == IF s # <<>> /\ s[Len(s)][1] = CR THEN SubSeq(s, 1, Len(s) - 1) ELSE s
RECURSIVE LinesRFrom(_, _, _)
LinesRFrom(r, i, cur) ==
  IF i > Len(r) THEN IF cur = <<>> THEN <<>> ELSE <<ChopR(cur)>>
  ELSE IF r[i][1] = LF THEN <<ChopR(cur)>> \o [j \in 1 .. r[i][2] - 1 |-> <<>>] \o LinesRFrom(r, i + 1, <<>>)
  ELSE LinesRFrom(r, i + 1, Append(cur, r[i]))
LinesR(r) == LinesRFrom(r, 1, <<>>)
RECURSIVE RunsFrom(_, _)
RunsFrom(b, acc) ==
  IF b = <<>> THEN acc
  ELSE LET c == Head(b) IN
       IF acc # <<>> /\ acc[Len(acc)][1] = c
       THEN RunsFrom(Tail(b), [acc EXCEPT ![Len(acc)] = <<c, @[2] + 1>>])
       ELSE RunsFrom(Tail(b), Append(acc, <<c, 1>>))
Runs(b) == RunsFrom(b, <<>>)

(* ------------------------------------------------------------------ strings *)
Blank(c) == c = 32 \/ c \in 9 .. 13
RECURSIVE LTrim(_)
LTrim(s) == IF s # <<>> /\ Blank(Head(s)) THEN LTrim(Tail(s)) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == IF s # <<>> /\ Blank(s[Len(s)]) THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == RTrim(LTrim(s))
Lower(s) == [i \in 1 .. Len(s) |-> IF s[i] \in 65 .. 90 THEN s[i] + 32 ELSE s[i]]
Occurs(s, c) == {i \in 1 .. Len(s) : s[i] = c}
Count(s, c) == Len(SelectSeq(s, LAMBDA x : x = c))
LastOf(S) == CHOOSE i \in S : \A j \in S : j <= i
FirstOf(S) == CHOOSE i \in S : \A j \in S : i <= j

(* ------------------------------------------------------------------ integers *)
Digit(c) == c \in 48 .. 57
AllDigits(s) == s # <<>> /\ \A i \in 1 .. Len(s) : Digit(s[i])
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ Head(s) = 48 THEN NoZeros(Tail(s)) ELSE s
RECURSIVE DigitsLeq(_, _)
(* lexicographic, same length *)
DigitsLeq(s, t) == IF s = <<>> THEN TRUE
                   ELSE IF Head(s) # Head(t) THEN Head(s) < Head(t) ELSE DigitsLeq(Tail(s), Tail(t))
MaxPos == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>       \* 2147483647
MaxNeg == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>       \* 2147483648
Fits(d, m) == LET n == NoZeros(d) IN Len(n) < 10 \/ (Len(n) = 10 /\ DigitsLeq(n, m))
RECURSIVE NegVal(_)
NegVal(d) == IF d = <<>> THEN 0 ELSE 10 * NegVal(SubSeq(d, 1, Len(d) - 1)) - (d[Len(d)] - 48)
RECURSIVE PosVal(_)
PosVal(d) == IF d = <<>> THEN 0 ELSE 10 * PosVal(SubSeq(d, 1, Len(d) - 1)) + (d[Len(d)] - 48)
(* "int" with value, "bad", or "open" (an explicit plus sign, a NUL) *)
IntOf(s) ==
  IF s = <<>> THEN [k |-> "bad", v |-> 0]
  ELSE IF Occurs(s, 0) # {} THEN [k |-> "open", v |-> 0]
  ELSE IF Head(s) = 43 THEN [k |-> "open", v |-> 0]
  ELSE IF Head(s) = 45
       THEN LET d == Tail(s) IN IF AllDigits(d) /\ Fits(d, MaxNeg) THEN [k |-> "int", v |-> NegVal(NoZeros(d))]
                                ELSE [k |-> "bad", v |-> 0]
  ELSE IF AllDigits(s) /\ Fits(s, MaxPos) THEN [k |-> "int", v |-> PosVal(NoZeros(s))]
  ELSE [k |-> "bad", v |-> 0]

(* ------------------------------------------------------------------ configuration *)
EQ == 61
HASH == 35
SLASH == 47
(* meaning of one line: "skip", "def" (key, value), "bad", "open" (no key before the =) *)
ConfLine(raw) ==
  LET t == Trim(raw) IN
  IF t = <<>> \/ Head(t) = HASH THEN [k |-> "skip"]
  ELSE IF Count(t, EQ) # 1 THEN [k |-> "bad"]
  ELSE LET p == FirstOf(Occurs(t, EQ))
           key == Lower(Trim(SubSeq(t, 1, p - 1)))
           val == Trim(SubSeq(t, p + 1, Len(t)))
       IN IF val = <<>> THEN [k |-> "bad"]
          ELSE IF key = <<>> THEN [k |-> "open"]
          ELSE [k |-> "def", key |-> key, val |-> val]
ConfParsed(b) == LET L == Lines(b) IN [i \in 1 .. Len(L) |-> ConfLine(L[i])]
ConfVerdict(P) == LET K == {P[i].k : i \in 1 .. Len(P)}
                  IN IF "bad" \in K THEN "refuse" ELSE IF "open" \in K THEN "open" ELSE "accept"
(* indices of the lines that define a key *)
Defs(P, key) == LET low == Lower(key) IN {i \in 1 .. Len(P) : P[i].k = "def" /\ P[i].key = low}
Defined(P, key) == Defs(P, key) # {}
Value(P, key) == P[LastOf(Defs(P, key))].val
(* a path of a configuration read from the file `name` *)
PathOf(name, v) ==
  IF Head(v) = SLASH THEN v
  ELSE LET S == Occurs(name, SLASH) IN IF S = {} THEN v ELSE SubSeq(name, 1, LastOf(S)) \o v

(* ------------------------------------------------------------------ symbol tables *)
SP == 32
BOS == <<60, 115, 62>>
EOS == <<60, 47, 115, 62>>
(* digits without superfluous leading zeros: other spellings of numbers are left open *)
PlainId(s) == AllDigits(s) /\ (Len(s) = 1 \/ Head(s) # 48)
(* what no reading of "a non-negative integer" can accept *)
NoId(s) == \/ s = <<>>
           \/ Head(s) = 45 /\ ~(\A i \in 2 .. Len(s) : s[i] = 48)
           \/ \A i \in 1 .. Len(s) : ~Digit(s[i])
           \/ \E i \in 1 .. Len(s) : s[i] > 32 /\ ~Digit(s[i]) /\ s[i] \notin {43, 45, 88, 120} \cup (65 .. 70) \cup (97 .. 102)
           \/ AllDigits(s) /\ ~Fits(s, MaxPos)
           \/ s[Len(s)] \in {43, 45, 120, 88}
           \/ Digit(Head(s)) /\ \E i \in 2 .. Len(s) - 1 : Digit(s[i - 1]) /\ Blank(s[i]) /\ Digit(s[i + 1])
SymLine(t) ==
  LET S == Occurs(t, SP) IN
  IF S = {} THEN [k |-> "bad"]
  ELSE LET p == FirstOf(S)
           w == SubSeq(t, 1, p - 1)
           r == SubSeq(t, p + 1, Len(t))
       IN IF w = <<>> THEN [k |-> "open"]
          ELSE IF r = <<>> THEN [k |-> "bad"]
          ELSE IF Occurs(r, 0) # {} THEN [k |-> "open"]
          ELSE IF PlainId(r) /\ Fits(r, MaxPos) THEN [k |-> "def", w |-> w, id |-> PosVal(r)]
          ELSE IF Occurs(r, SP) # {} THEN
               IF Occurs(SubSeq(r, 1, Len(r) - 1), SP) # {} \/ NoId(SubSeq(r, 1, Len(r) - 1)) THEN [k |-> "bad"]
               ELSE [k |-> "open"]                            \* one trailing blank
          ELSE IF NoId(r) THEN [k |-> "bad"]
          ELSE [k |-> "open"]
SymParsed(b) == LET L == Lines(b) IN [i \in 1 .. Len(L) |-> SymLine(L[i])]
SymVerdict(P) ==
  LET K == {P[i].k : i \in 1 .. Len(P)} IN
  IF "bad" \in K THEN "refuse"
  ELSE IF "open" \in K THEN "open"
  ELSE IF (\E i \in 1 .. Len(P) : P[i].w = BOS) /\ (\E i \in 1 .. Len(P) : P[i].w = EOS) THEN "accept"
  ELSE "refuse"
(* id of a word: its last definition, -1 when there is none *)
IdOf(P, w) == LET S == {i \in 1 .. Len(P) : P[i].w = w} IN IF S = {} THEN -1 ELSE P[LastOf(S)].id
WordOf(P, id) == LET S == {i \in 1 .. Len(P) : P[i].id = id} IN IF S = {} THEN <<>> ELSE P[LastOf(S)].w
=============================================================================
