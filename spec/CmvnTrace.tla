------------------------------ MODULE CmvnTrace ------------------------------
EXTENDS Cmvn, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<cmVars, l>>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TNew == Is("new") /\ raw' = << >> /\ gm' = << >> /\ t' = 0 /\ sum' = << >>
(* the features repeat with period Len(E.raw) except for the listed frames *)
Expand(r, len, spikes) ==
  [k \in 1 .. len |-> IF \E i \in 1 .. Len(spikes) : spikes[i][1] = k
                      THEN LET i == CHOOSE i \in 1 .. Len(spikes) : spikes[i][1] = k IN [d \in 1 .. Len(r[1]) |-> spikes[i][2]]
                      ELSE r[((k - 1) % Len(r)) + 1]]
TLoad == Is("load") /\ Load(Expand(E.raw, E.n, E.spikes), E.gm)
TFrame == Is("frame") /\ E.rawok /\ Frame(E.y)
TraceInit == CInit /\ l = 1
TraceNext == TNew \/ TLoad \/ TFrame
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
  PrintT("TRACE-MATCHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
