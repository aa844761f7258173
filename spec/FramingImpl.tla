------------------------------ MODULE FramingImpl ------------------------------
(* The buffer algorithm of Fbank::Process refines Framing: for every pair of interleaved instances and every  *)
(* division of the streams into chunks, the frames cut from the carried-over buffer are the windows of the    *)
(* stream, nothing is lost and the buffer never holds a complete frame.                                       *)
EXTENDS Framing, TLC
CONSTANTS MaxN, MaxChunk, NInst
VARIABLES buf, out, stream
vars == <<frVars, buf, out, stream>>
\* samples are their positions in the stream of the instance, made distinct between instances
Sample(i, k) == 100 * i + k
Win(i, s) == [k \in 1 .. Length |-> Sample(i, s + k)]
Init == /\ ref = << >> /\ n = [i \in 1 .. NInst |-> 0] /\ e = n
        /\ buf = [i \in 1 .. NInst |-> << >>] /\ out = buf /\ stream = buf
Chunk(i, m) ==
  LET add == [k \in 1 .. m |-> Sample(i, n[i] + k)]
      b == buf[i] \o add
      f == Frames(Len(b))
      rows == [k \in 1 .. f |-> SubSeq(b, Shift * (k - 1) + 1, Shift * (k - 1) + Length)]
  IN /\ n[i] + m <= MaxN
     /\ n' = [n EXCEPT ![i] = @ + m]
     /\ e' = [e EXCEPT ![i] = @ + f]
     /\ buf' = [buf EXCEPT ![i] = IF m = 0 \/ f = 0 THEN b ELSE SubSeq(b, Shift * f + 1, Len(b))]
     /\ out' = [out EXCEPT ![i] = @ \o rows]
     /\ stream' = [stream EXCEPT ![i] = @ \o add]
     /\ ref' = ref
Next == \E i \in 1 .. NInst, m \in 0 .. MaxChunk : Chunk(i, m)
Spec == Init /\ [][Next]_vars
Refines == \A i \in 1 .. NInst : out[i] = [k \in 1 .. Frames(n[i]) |-> Win(i, Shift * (k - 1))]
Carry == \A i \in 1 .. NInst : Len(buf[i]) < Length /\ buf[i] = SubSeq(stream[i], Shift * e[i] + 1, n[i])
=============================================================================
