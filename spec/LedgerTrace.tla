---------------------------- MODULE LedgerTrace ----------------------------
EXTENDS Ledger, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<ledgerVars, l>>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TNew == Is("new") /\ LNew
TAudio == Is("audio") /\ UNCHANGED ledgerVars
TLoad == Is("load") /\ RecInit(E.r, E.ok, E.d)
TTry == Is("try") /\ RecInit(E.r, E.ok, E.d)
TRDel == Is("rdel") /\ RecDestroy(E.r, E.d)
TBegin == Is("uinit") /\ UttInit(E.u, E.ok, E.d)
TProc == Is("proc") /\ UttCall(E.u, E.ret, E.d)
TEos == Is("eos") /\ UttCall(E.u, 0, E.d)
THyp == Is("hyp") /\ UttBad(E.u, E.d)
TBad == Is("bad") /\ UttBad(E.u, E.d)
TNul == Is("nul") /\ UNCHANGED ledgerVars
TFlat == Is("flat") /\ UttFlat(E.u, E.slack, E.per)
TUDel == Is("udel") /\ UttDestroy(E.u, E.d)
TraceInit == LInit /\ l = 1
TraceNext == TNew \/ TAudio \/ TLoad \/ TTry \/ TRDel \/ TBegin \/ TProc \/ TEos \/ THyp \/ TBad \/ TNul \/ TFlat \/ TUDel
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
  PrintT("TRACE-MATCHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
