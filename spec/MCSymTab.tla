------------------------------ MODULE MCSymTab ------------------------------
(* The table kept while reading line by line (the two maps of SymbolTable) agrees with the meaning of  *)
(* the whole file, for all files of up to MaxLines lines from a set of lines.                          *)
EXTENDS Text, TLC
CONSTANTS MaxLines
VARIABLES file, ids, words, failed
vars == <<file, ids, words, failed>>
a == 97
W1 == <<a>>
W2 == <<60, 47, 115>>
Id(n) == <<48 + n>>
Pool == {BOS \o <<SP>> \o Id(0), BOS \o <<SP>> \o Id(1), EOS \o <<SP>> \o Id(1), EOS \o <<SP>> \o Id(3), W1 \o <<SP>> \o Id(1), W1 \o <<SP>> \o Id(4),
         W2 \o <<SP>> \o Id(0), W1, <<>>, W1 \o <<SP, SP>> \o Id(1), W1 \o <<SP, 45, 49>>, W1 \o <<SP>> \o W1,
         W1 \o <<SP>> \o Id(1) \o <<SP>> \o W1, W1 \o <<SP>>}
Init == file = <<>> /\ ids = <<>> /\ words = <<>> /\ failed = FALSE
Grow(w, id) == IF id < Len(w) THEN w ELSE w \o [i \in 1 .. id + 1 - Len(w) |-> <<>>]
Get(f, k) == IF \E i \in 1 .. Len(f) : f[i][1] = k THEN (CHOOSE x \in {f[i] : i \in 1 .. Len(f)} : x[1] = k)[2] ELSE -1
Set(f, k, v) == SelectSeq(f, LAMBDA x : x[1] # k) \o <<<<k, v>>>>
Add(t) == /\ Len(file) < MaxLines
          /\ file' = Append(file, t)
          /\ IF SymLine(t).k = "def"
             THEN /\ ids' = Set(ids, SymLine(t).w, SymLine(t).id)
                  /\ words' = [Grow(words, SymLine(t).id) EXCEPT ![SymLine(t).id + 1] = SymLine(t).w]
                  /\ UNCHANGED failed
             ELSE failed' = TRUE /\ UNCHANGED <<ids, words>>
Next == \E t \in Pool : Add(t)
Spec == Init /\ [][Next]_vars
RECURSIVE Join(_)
Join(f) == IF f = <<>> THEN <<>> ELSE Head(f) \o <<LF>> \o Join(Tail(f))
P == SymParsed(Join(file))
Same == /\ Len(P) = Len(file)
        /\ (SymVerdict(P) = "accept") = (~failed /\ Get(ids, BOS) >= 0 /\ Get(ids, EOS) >= 0)
        /\ SymVerdict(P) # "open"
        /\ ~failed => /\ \A w \in {BOS, EOS, W1, W2} : IdOf(P, w) = Get(ids, w)
                      /\ \A i \in 1 .. Len(words) : WordOf(P, i - 1) = words[i]
=============================================================================
