----------------------------- MODULE FramingTrace -----------------------------
EXTENDS Framing, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<frVars, l>>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TNew == Is("new") /\ ref' = << >> /\ n' = [i \in 1 .. 4 |-> 0] /\ e' = n'
(* a wave: what each of its windows on a grid gives alone *)
TRef == Is("ref") /\ ref' = [s \in {E.grid * k : k \in 0 .. Len(E.w) - 1} |-> E.w[s \div E.grid + 1]]
        /\ n' = [i \in 1 .. 4 |-> 0] /\ e' = n'
TStart == Is("start") /\ n' = [n EXCEPT ![E.i] = 0] /\ e' = [e EXCEPT ![E.i] = 0] /\ ref' = ref
TFeed == Is("feed") /\ E.cols /\ Feed(E.i, E.m, E.y)
TBulk == Is("bulk") /\ Bulk(E.p, E.w, E.a, E.n, E.b, E.cnt, E.head, E.brk) /\ UNCHANGED frVars
TraceInit == FInit /\ l = 1
TraceNext == TNew \/ TRef \/ TStart \/ TFeed \/ TBulk
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
  PrintT("TRACE-MATCHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
