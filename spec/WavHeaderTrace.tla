--------------------------- MODULE WavHeaderTrace ---------------------------
EXTENDS WavHeader, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED pcmVars
FieldsOk == E.ok => LET f == Fields(E.b) IN E.ch = f.ch /\ E.rate = f.rate /\ E.bits = f.bits
VerdictOk == LET v == Verdict(E.b) IN
             /\ v = "accept" => E.ok
             /\ v = "refuse" => ~E.ok
             /\ ~E.ok => E.err
TNew == Is("new")
(* C++ reader: verbatim fields, positioned on the first sample byte *)
THdr == Is("hdr") /\ VerdictOk /\ FieldsOk
        /\ (E.ok => E.rest = SubSeq(E.b, HeaderLen + 1, IF Len(E.b) < HeaderLen + 8 THEN Len(E.b) ELSE HeaderLen + 8))
(* C API *)
TCHdr == Is("chdr") /\ VerdictOk /\ FieldsOk /\ E.null = ~E.ok /\ (E.ok => E.pos = HeaderLen)
(* whole file *)
TWav == Is("wav") /\
        LET v == Verdict(E.b) IN
        /\ (v = "refuse" \/ ~Supported16k(E.b)) => ~E.ok
        /\ (v = "accept" /\ Supported16k(E.b) /\ Len(E.b) > HeaderLen) => E.ok
        /\ E.ok => E.out = Decode(Body(E.b), Bits(E.b) \div 8)
        /\ ~E.ok => E.err
TraceInit == l = 1 /\ PcmInit
TraceNext == TNew \/ THdr \/ TCHdr \/ TWav
TraceSpec == TraceInit /\ [][TraceNext]_<<l, pcmVars>>
TraceAccepted ==
  PrintT("TRACE-MATCHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
