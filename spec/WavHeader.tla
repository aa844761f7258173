------------------------------ MODULE WavHeader ------------------------------
(* Acceptance and meaning of a RIFF/WAVE header, byte by byte (ReadPcmHeader, ce_read_pcm_header,     *)
(* Read16kPcm). 32-bit fields are pairs <<hi, lo>> of 16-bit halves.                                  *)
EXTENDS Integers, Sequences, Pcm

HeaderLen == 44
U16(b, i) == b[i] + 256 * b[i+1]
S16(x) == IF x >= 32768 THEN x - 65536 ELSE x
U32(b, i) == <<U16(b, i+2), U16(b, i)>>
(* value of a signed 32-bit field as HiLo pair *)
S32(b, i) == <<S16(U16(b, i+2)), U16(b, i)>>
Tag(b, i) == SubSeq(b, i, i+3)

RIFF == <<82, 73, 70, 70>>
WAVE == <<87, 65, 86, 69>>
FMT_ == <<102, 109, 116, 32>>
DATA == <<100, 97, 116, 97>>

Channels(b) == S16(U16(b, 23))
Rate(b)     == S32(b, 25)
ByteRate(b) == S32(b, 29)
Align(b)    == S16(U16(b, 33))
Bits(b)     == S16(U16(b, 35))

(* pair * small natural number *)
Times(p, k) == <<p[1] * k + (p[2] * k) \div 65536, (p[2] * k) % 65536>>

TagsOk(b) == /\ Tag(b, 1) = RIFF /\ Tag(b, 9) = WAVE /\ Tag(b, 13) = FMT_ /\ Tag(b, 37) = DATA
             /\ U32(b, 17) = <<0, 16>>
             /\ U16(b, 21) = 1

(* "accept" / "refuse" / "any": the format says nothing (more than one channel, odd widths,           *)
(* byte rates from 2^31 to 2^32)                                                                                 *)
Verdict(b) ==
  IF Len(b) < HeaderLen THEN "refuse"
  ELSE IF ~TagsOk(b) THEN "refuse"
  ELSE IF Channels(b) # 1 \/ Bits(b) <= 0 \/ Bits(b) % 8 # 0 \/ Rate(b)[1] < 0 THEN "any"
  ELSE LET k == Bits(b) \div 8
           r == Times(Rate(b), k)
       IN IF r[1] >= 32768 /\ r[1] < 65536 THEN "any"      \* fits unsigned but not signed 32 bits
          ELSE IF r = ByteRate(b) /\ Align(b) = k THEN "accept" ELSE "refuse"

Fields(b) == [ch |-> <<IF Channels(b) < 0 THEN -1 ELSE 0, U16(b, 23)>>, rate |-> Rate(b),
              bits |-> <<IF Bits(b) < 0 THEN -1 ELSE 0, U16(b, 35)>>]

Body(b) == SubSeq(b, HeaderLen + 1, Len(b))
Supported16k(b) == Channels(b) = 1 /\ Rate(b) = <<0, 16000>> /\ Bits(b) \in {8, 16, 32}
=============================================================================
