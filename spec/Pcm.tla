--------------------------------- MODULE Pcm ---------------------------------
(* Streaming conversion of PCM bytes to samples (pcm_reader.cc, WaveReader). A byte is 0..255, a     *)
(* sample is the pair <<hi, lo>> with value hi * 65536 + lo, 0 <= lo < 65536, so that 32-bit samples  *)
(* stay inside TLC's integers.                                                                        *)
EXTENDS Integers, Sequences

VARIABLES w,        \* bytes per sample, 0 = no format set yet
          buf,      \* bytes of an incomplete sample
          res,      \* result of the last call: [ok, out]
          fed,      \* history: bytes accepted since the last Reset
          got       \* history: samples delivered since the last Reset
pcmVars == <<w, buf, res, fed, got>>

NoOut == << >>

SupportedFormat(ch, rate, bits) == ch = 1 /\ rate = 16000 /\ bits \in {8, 16, 32}

Signed16(lo, hi) == IF hi >= 128 THEN (hi - 256) * 256 + lo ELSE hi * 256 + lo
Floor(x) == x \div 65536        \* \div rounds towards minus infinity in TLA+
HiLo(x) == <<x \div 65536, x % 65536>>

(* Little-endian two's complement sample at bytes b[i+1 .. i+wd]. *)
SampleAt(b, i, wd) ==
  CASE wd = 1 -> HiLo(IF b[i+1] >= 128 THEN b[i+1] - 256 ELSE b[i+1])
    [] wd = 2 -> HiLo(Signed16(b[i+1], b[i+2]))
    [] wd = 4 -> <<Signed16(b[i+3], b[i+4]), b[i+1] + 256 * b[i+2]>>

Decode(b, wd) == [i \in 1 .. (Len(b) \div wd) |-> SampleAt(b, (i-1) * wd, wd)]
Rest(b, wd) == SubSeq(b, (Len(b) \div wd) * wd + 1, Len(b))

PcmInit == w = 0 /\ buf = << >> /\ res = [ok |-> TRUE, out |-> NoOut] /\ fed = << >> /\ got = << >>

SetFormat(ch, rate, bits) ==
  IF SupportedFormat(ch, rate, bits)
  THEN /\ w' = bits \div 8
       /\ res' = [ok |-> TRUE, out |-> NoOut]
       /\ UNCHANGED <<buf, fed, got>>
  ELSE /\ res' = [ok |-> FALSE, out |-> NoOut]
       /\ UNCHANGED <<w, buf, fed, got>>

(* A call with a valid buffer of at least one byte. *)
Feed(bytes) ==
  IF w = 0
  THEN /\ res' = [ok |-> FALSE, out |-> NoOut]
       /\ UNCHANGED <<w, buf, fed, got>>
  ELSE LET all == buf \o bytes
           out == Decode(all, w)
       IN /\ res' = [ok |-> TRUE, out |-> out]
          /\ buf' = Rest(all, w)
          /\ fed' = fed \o bytes
          /\ got' = got \o out
          /\ UNCHANGED w

(* A very large call, described by a repeated run of bytes: n samples are delivered, the first ones as    *)
(* decoded from `per`, and every later one equal to the one Len(per) samples before it (brk = -1). The    *)
(* run holds w * Len(per) bytes at most before the samples repeat. The histories start again after it.    *)
BulkByte(per, i) == per[((i - 1) % Len(per)) + 1]
Bulk(per, size, ok, cnt, head, brk) ==
  IF w = 0
  THEN ~ok /\ res' = [ok |-> FALSE, out |-> NoOut] /\ UNCHANGED <<w, buf, fed, got>>
  ELSE LET k == Len(buf)
           At(i) == IF i <= k THEN buf[i] ELSE BulkByte(per, i - k)
           total == k + size
           m == total \div w
           h == IF m < Len(per) THEN m ELSE Len(per)
       IN /\ ok /\ cnt = m
          /\ head = Decode([i \in 1 .. h * w |-> At(i)], w)
          /\ (k = 0 => brk = -1)
          /\ res' = [ok |-> TRUE, out |-> NoOut]
          /\ buf' = [i \in 1 .. total % w |-> At(m * w + i)]
          /\ fed' = buf' /\ got' = NoOut
          /\ UNCHANGED w

(* Null buffer, or size <= 0. *)
BadCall ==
  /\ res' = [ok |-> FALSE, out |-> NoOut]
  /\ UNCHANGED <<w, buf, fed, got>>

Reset ==
  /\ buf' = << >> /\ fed' = << >> /\ got' = << >>
  /\ res' = [ok |-> TRUE, out |-> NoOut]
  /\ UNCHANGED w

----
(* Properties: chunking independence, no loss, no duplication, no delay. *)
ChunkingIndependent == w # 0 => got = Decode(fed, w)
NoDelay == w # 0 => Len(buf) < w /\ buf = Rest(fed, w)
FailureDeliversNothing == ~res.ok => res.out = NoOut
PcmInv == ChunkingIndependent /\ NoDelay /\ FailureDeliversNothing
=============================================================================
