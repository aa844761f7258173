---------------------------- MODULE CharTokTrace ----------------------------
EXTENDS CharTok, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES last, l      \* what the last run wrote
tvars == <<last, l>>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TNew == Is("new") /\ last' = <<>>
TConv == /\ Is("conv") /\ E.ok
         /\ LET o == Conv(E.in) IN E.out = o /\ last' = o
(* the converted text once more *)
TAgain == Is("again") /\ E.ok /\ E.out = last /\ last' = last
TraceInit == last = <<>> /\ l = 1
TraceNext == TNew \/ TConv \/ TAgain
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
  PrintT("TRACE-MATCHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
