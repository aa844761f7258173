------------------------------ MODULE CharTok ------------------------------
(* Text for scoring (tool/conv_chartok.sh): hypotheses or references "name word word ..." become          *)
(* "name char char ...". A text is a sequence of code points.                                             *)
EXTENDS Integers, Sequences, FiniteSets
LF == 10
SP == 32
Blank(c) == c \in 9 .. 13 \/ c = 32
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>>
            ELSE IF Len(ss) = 1 THEN ss[1]
            ELSE LET h == Len(ss) \div 2 IN Flat(SubSeq(ss, 1, h)) \o Flat(SubSeq(ss, h + 1, Len(ss)))
(* the lines; a last line without terminator counts when it is not empty *)
Ends(t) == LET P == SelectSeq([i \in 1 .. Len(t) |-> i], LAMBDA i : t[i] = LF)
           IN IF t = <<>> \/ t[Len(t)] = LF THEN P ELSE P \o <<Len(t) + 1>>
Lines(t) == LET e == Ends(t) IN [k \in 1 .. Len(e) |-> SubSeq(t, IF k = 1 THEN 1 ELSE e[k - 1] + 1, e[k] - 1)]
(* words are separated by blanks of any number; blanks around do not count *)
Starts(s) == SelectSeq([i \in 1 .. Len(s) |-> i], LAMBDA i : ~Blank(s[i]) /\ (i = 1 \/ Blank(s[i - 1])))
WordAt(s, i) == LET B == {j \in i .. Len(s) : Blank(s[j])}
                    e == IF B = {} THEN Len(s) ELSE (CHOOSE j \in B : \A k \in B : j <= k) - 1
                IN SubSeq(s, i, e)
Words(s) == LET b == Starts(s) IN [k \in 1 .. Len(b) |-> WordAt(s, b[k])]
(* marks of noises and the like are no words: [noise], <unk>, !SIL *)
Enclosed(w, a, b) == \E i, j \in 1 .. Len(w) : i < j /\ w[i] = a /\ w[j] = b
Mark(w) == \/ Enclosed(w, 91, 93)
           \/ Enclosed(w, 60, 62)
           \/ \E i \in 1 .. Len(w) - 3 : SubSeq(w, i, i + 3) = <<33, 83, 73, 76>>
Pieces(w) == IF Mark(w) THEN <<w>> ELSE [i \in 1 .. Len(w) |-> <<w[i]>>]
LineOut(s) ==
  LET W == Words(s)
      ps == Flat([k \in 1 .. (IF W = <<>> THEN 0 ELSE Len(W) - 1) |-> Pieces(W[k + 1])])
  IN (IF W = <<>> THEN <<>> ELSE W[1]) \o Flat([k \in 1 .. Len(ps) |-> <<SP>> \o ps[k]]) \o <<LF>>
Conv(t) == LET L == Lines(t) IN Flat([k \in 1 .. Len(L) |-> LineOut(L[k])])
=============================================================================
