-------------------------------- MODULE MCPcm --------------------------------
EXTENDS Pcm, TLC, Json
CONSTANTS Depth,      \* number of calls
          Bytes,      \* byte values used
          MaxChunk,   \* longest chunk
          DoPrint       \* TRUE: print every behaviour of length Depth
VARIABLE hist
vars == <<pcmVars, hist>>

Chunks == UNION {[1..n -> Bytes] : n \in 1..MaxChunk}
Formats == {<<1, 16000, 8>>, <<1, 16000, 16>>, <<1, 16000, 32>>, <<2, 16000, 16>>, <<1, 8000, 16>>, <<1, 16000, 24>>}

Init == PcmInit /\ hist = << >>
Log(e) == hist' = Append(hist, e)
(* the format is only changed while no incomplete sample is buffered *)
Next ==
  /\ Len(hist) < Depth
  /\ \/ \E f \in Formats : buf = << >> /\ fed = << >> /\ SetFormat(f[1], f[2], f[3]) /\ Log(<<"fmt">> \o f)
     \/ \E c \in Chunks : Feed(c) /\ Log(<<"feed", c>>)
     \/ BadCall /\ Log(<<"bad">>)
     \/ Reset /\ Log(<<"reset">>)
Spec == Init /\ [][Next]_vars
Emit == (DoPrint /\ Len(hist) = Depth) => PrintT("BEH" \o ToJson(hist))
(* without printing the history is not part of the state *)
View == IF DoPrint THEN <<pcmVars, hist>> ELSE <<pcmVars, <<Len(hist)>> >>
=============================================================================
