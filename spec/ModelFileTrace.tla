---------------------------- MODULE ModelFileTrace ----------------------------
EXTENDS ModelFile, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TNew == Is("new")
(* the file E.b read from position E.p; E.pos = stream position afterwards *)
R == Read(E.kind, E.b, E.p)
Content ==
  CASE E.kind = "fst" -> /\ E.start = R.val.start
                         /\ E.fin = R.val.fin
                         /\ (E.iter => E.arcs = [s \in 1 .. Len(R.val.idx) |-> ArcsOf(R.val, s)])
    [] E.kind = "net" -> E.left = R.val.left /\ E.right = R.val.right
    [] OTHER -> E.val = R.val
TRead == Is("read") /\ E.ok = R.ok /\ (E.ok => E.pos = R.next - 1 /\ Content) /\ (~E.ok => E.err)
TraceInit == l = 1
TraceNext == TNew \/ TRead
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted ==
  PrintT("TRACE-MATCHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
