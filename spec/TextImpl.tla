------------------------------ MODULE TextImpl ------------------------------
(* The line reader as implemented: pieces of at most Chunk - 1 bytes (Chunk = 2: byte by byte, as the  *)
(* code does now) are put together until a newline or the end of the file; the end is reported once as *)
(* success, afterwards as an error.                                                                     *)
(* Refines: the sequence of returned lines is Lines(text), whatever the buffer size.                   *)
EXTENDS Text, TLC
CONSTANTS Chunk, MaxLen, Codes
VARIABLES text, pos, acc, got, eof, res
vars == <<text, pos, acc, got, eof, res>>
Texts == UNION {[1 .. n -> Codes] : n \in 0 .. MaxLen}
Init == text \in Texts /\ pos = 0 /\ acc = <<>> /\ got = <<>> /\ eof = FALSE /\ res = "reading"
(* one fgets: up to Chunk - 1 bytes, stops behind a newline *)
Piece == LET avail == SubSeq(text, pos + 1, Len(text))
             nl == {i \in 1 .. Len(avail) : avail[i] = LF}
             a == IF nl = {} THEN Len(avail) ELSE FirstOf(nl)
             n == IF a < Chunk - 1 THEN a ELSE Chunk - 1
         IN SubSeq(avail, 1, n)
Fgets == /\ res = "reading" /\ Piece # <<>>
         /\ pos' = pos + Len(Piece)
         /\ LET t == acc \o Piece IN
            IF t[Len(t)] = LF
            THEN got' = Append(got, Chop(SubSeq(t, 1, Len(t) - 1))) /\ acc' = <<>>
            ELSE acc' = t /\ UNCHANGED got
         /\ UNCHANGED <<text, eof, res>>
End == /\ res = "reading" /\ Piece = <<>>
       /\ IF acc # <<>> THEN got' = Append(got, Chop(acc)) /\ acc' = <<>> /\ UNCHANGED <<eof, res>>
          ELSE IF ~eof THEN eof' = TRUE /\ UNCHANGED <<acc, got, res>>
          ELSE res' = "error" /\ UNCHANGED <<acc, got, eof>>
       /\ UNCHANGED <<text, pos>>
Next == Fgets \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
L == Lines(text)
Prefix == \A i \in 1 .. Len(got) : i <= Len(L) /\ got[i] = L[i]
Complete == (eof => got = L) /\ (res = "error" => eof)
RunsAgree == LET R == LinesR(Runs(text)) IN Len(R) = Len(L) /\ \A i \in 1 .. Len(L) : R[i] = Runs(L[i])
Terminates == <>(res = "error")
=============================================================================
