------------------------------ MODULE PcmTrace ------------------------------
EXTENDS Pcm, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<pcmVars, l>>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1

(* the recorded result must be the one the specification's action produces *)
SameResult == res'.ok = E.ok /\ (E.ok => res'.out = E.out)

TNew   == Is("new") /\ w' = 0 /\ buf' = << >> /\ res' = [ok |-> TRUE, out |-> NoOut] /\ fed' = << >> /\ got' = << >>
TFmt   == Is("fmt") /\ SetFormat(E.ch, E.rate, E.bits) /\ res'.ok = E.ok
TFeed  == Is("feed") /\ Feed(E.b) /\ SameResult
TBulk  == Is("bulk") /\ IF E.ok THEN Bulk(E.per, E.size, TRUE, E.n, E.head, E.brk)
                        ELSE Bulk(E.per, E.size, FALSE, 0, NoOut, 0)
TBad   == Is("bad") /\ BadCall /\ res'.ok = E.ok
TReset == Is("reset") /\ Reset

TraceInit == PcmInit /\ l = 1
TraceNext == TNew \/ TFmt \/ TFeed \/ TBulk \/ TBad \/ TReset
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
  PrintT("TRACE-MATCHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
