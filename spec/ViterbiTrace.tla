---------------------------- MODULE ViterbiTrace ----------------------------
EXTENDS Viterbi, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vitVars, l>>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Empty == [start |-> 0, arcs |-> << >>, fin |-> << >>]
NoLm == [on |-> FALSE, lm |-> Empty, small |-> << >>, bos |-> 0, eos |-> 0]
TNew == Is("new") /\ Load(Empty, << >>, 2, NoLm)
TLoad == Is("load") /\ Load(E.g, E.map, E.am2, IF E.lm.on THEN E.lm ELSE NoLm)
TInit == Is("init") /\ Initialize /\ E.n = 0
TFrame == Is("frame") /\ Frame(E.f, E.ok, E.act) /\ E.n = Len(frames')
TLoop == Is("loop") /\ E.ok /\ FrameLoop(E.fs, E.r, E.act) /\ E.n = Len(frames')
TEos == Is("eos") /\ EndOfStream
TBest == Is("best") /\ Reportable(E.w, E.c) /\ UNCHANGED vitVars
TraceInit == VInit /\ l = 1
TraceNext == TNew \/ TLoad \/ TInit \/ TFrame \/ TLoop \/ TEos \/ TBest
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
  PrintT("TRACE-MATCHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
