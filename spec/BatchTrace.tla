------------------------------ MODULE BatchTrace ------------------------------
EXTENDS Batching, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<batVars, l>>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
NoAm == [left |-> 0, right |-> 0, chunk |-> 1, net |-> << >>, prior |-> << >>]
TNew == Is("new") /\ am' = NoAm /\ fed' = << >> /\ emitted' = 0 /\ ended' = FALSE
TLoad == Is("load") /\ E.ok /\ E.pdfs = Len(E.prior)
         /\ am' = [left |-> E.left, right |-> E.right, chunk |-> E.chunk, net |-> E.net, prior |-> E.prior]
         /\ fed' = << >> /\ emitted' = 0 /\ ended' = FALSE
TInst == Is("inst") /\ Start
TFeed == Is("feed") /\ Feed(E.x, E.y)
TEnd == Is("end") /\ End(E.y)
TraceInit == BInit /\ l = 1
TraceNext == TNew \/ TLoad \/ TInst \/ TFeed \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
  PrintT("TRACE-MATCHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
