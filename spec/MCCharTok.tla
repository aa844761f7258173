----------------------------- MODULE MCCharTok -----------------------------
(* A machine that reads the text once, code point by code point, keeps the current word and flags for the *)
(* marks seen in it, and writes as it goes, agrees with CharTok on every text; and laws of the meaning.    *)
EXTENDS CharTok, Json, TLC
CONSTANTS MaxLen, Codes, DoPrint,
          Greedy      \* TRUE: the machine forgets at a blank only the word, not the flags (negative control)
VARIABLES text, word, sq, an, sil, mark, first, out
vars == <<text, word, sq, an, sil, mark, first, out>>
Init == text = <<>> /\ word = <<>> /\ sq = FALSE /\ an = FALSE /\ sil = 0 /\ mark = FALSE /\ first = TRUE /\ out = <<>>
WordOut == IF word = <<>> THEN <<>>
           ELSE IF first THEN word
           ELSE IF mark THEN <<SP>> \o word
           ELSE Flat([i \in 1 .. Len(word) |-> <<SP, word[i]>>])
Sil(c) == IF c = 33 THEN 1
          ELSE IF sil = 1 /\ c = 83 THEN 2
          ELSE IF sil = 2 /\ c = 73 THEN 3
          ELSE IF sil = 3 /\ c = 76 THEN 4 ELSE 0
Put(c) ==
  /\ text' = Append(text, c)
  /\ IF Blank(c)
     THEN /\ out' = out \o WordOut \o (IF c = LF THEN <<LF>> ELSE <<>>)
          /\ word' = <<>> /\ sil' = 0
          /\ first' = (IF c = LF THEN TRUE ELSE first /\ word = <<>>)
          /\ IF Greedy THEN UNCHANGED <<sq, an, mark>> ELSE sq' = FALSE /\ an' = FALSE /\ mark' = FALSE
     ELSE /\ out' = out /\ first' = first
          /\ word' = Append(word, c)
          /\ sq' = (sq \/ c = 91) /\ an' = (an \/ c = 60) /\ sil' = Sil(c)
          /\ mark' = (mark \/ (sq /\ c = 93) \/ (an /\ c = 62) \/ Sil(c) = 4)
Next == Len(text) < MaxLen /\ \E c \in Codes : Put(c)
Spec == Init /\ [][Next]_vars
(* what the machine has written when the text ends here *)
Final == out \o WordOut \o (IF text # <<>> /\ text[Len(text)] # LF THEN <<LF>> ELSE <<>>)
C == Conv(text)
Same == Final = C
Dense(t) == SelectSeq(t, LAMBDA c : ~Blank(c))
Laws == /\ Conv(C) = C                                    \* a converted text stays as it is
        /\ Dense(C) = Dense(text)                         \* nothing lost, added or reordered
        /\ Len(Lines(C)) = Len(Lines(text))
        /\ \A k \in 1 .. Len(Lines(text)) : LET a == Words(Lines(text)[k]) b == Words(Lines(C)[k]) IN
             /\ (a = <<>>) = (b = <<>>)
             /\ (a # <<>> => a[1] = b[1])
             /\ \A i \in 2 .. Len(b) : Len(b[i]) = 1 \/ Mark(b[i])
Emit == DoPrint => PrintT("BEH" \o ToJson(text))
=============================================================================
