----------------------------- MODULE MCWavHeader -----------------------------
(* The grammar against an independent serializer: every header written from consistent fields is      *)
(* accepted and parsed back verbatim; every truncation and every change of a fixed byte is refused;   *)
(* no change of one byte is ever accepted with different format fields.                               *)
EXTENDS WavHeader, TLC
CONSTANTS Rates, Widths, Bytes
VARIABLES rate, bits, hdr, kind, pos
LE32(x) == <<x % 256, (x \div 256) % 256, (x \div 65536) % 256, (x \div 16777216) % 256>>
LE16(x) == <<x % 256, (x \div 256) % 256>>
Ser(r, b) == RIFF \o LE32(4660) \o WAVE \o FMT_ \o LE32(16) \o LE16(1) \o LE16(1) \o LE32(r)
             \o LE32((r * b) \div 8) \o LE16(b \div 8) \o LE16(b) \o DATA \o LE32(77)
Init == /\ rate \in Rates /\ bits \in Widths /\ hdr = Ser(rate, bits) /\ kind = "intact" /\ pos = 0 /\ PcmInit
Next == /\ kind = "intact" /\ UNCHANGED <<rate, bits, pcmVars>>
        /\ \/ \E n \in 0 .. HeaderLen - 1 : kind' = "cut" /\ pos' = n /\ hdr' = SubSeq(hdr, 1, n)
           \/ \E n \in 1 .. HeaderLen, v \in Bytes :
                 v # hdr[n] /\ kind' = "mut" /\ pos' = n /\ hdr' = [hdr EXCEPT ![n] = v]
Spec == Init /\ [][Next]_<<rate, bits, hdr, kind, pos, pcmVars>>
Free == (5 .. 8) \cup (41 .. 44)      \* chunk sizes are not checked
Fixed == (1 .. 4) \cup (9 .. 22) \cup (37 .. 40)
Inv ==
  /\ kind = "intact" => /\ Verdict(hdr) = "accept"
                        /\ Fields(hdr) = [ch |-> <<0, 1>>, rate |-> HiLo(rate), bits |-> <<0, bits>>]
  /\ kind = "cut" => Verdict(hdr) = "refuse"
  /\ kind = "mut" /\ pos \in Fixed => Verdict(hdr) = "refuse"
  /\ kind = "mut" /\ pos \in Free => Verdict(hdr) = "accept"
  /\ kind = "mut" /\ pos \in 25 .. 34 => Verdict(hdr) # "accept"
=============================================================================
