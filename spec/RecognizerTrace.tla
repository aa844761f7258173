--------------------------- MODULE RecognizerTrace ---------------------------
EXTENDS Recognizer, ModelDir, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<recVars, l>>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
NoLm == [on |-> FALSE, lm |-> [start |-> 0, arcs |-> << >>, fin |-> << >>], small |-> << >>, bos |-> 0, eos |-> 0]
TNew == Is("new") /\ recs' = << >> /\ auds' = << >> /\ utts' = << >>
TLoad == Is("load") /\ E.ok /\ Load(E.r, IF E.m.lm.on THEN E.m ELSE [E.m EXCEPT !.lm = NoLm])
TTry == Is("try") /\ InitOk(E.files, E.dir, E.conf, E.ok, E.err) /\ UNCHANGED recVars
TAudio == Is("audio") /\ NewAudio(E.a, [w |-> E.w, n |-> E.n, loud |-> E.loud])
TBegin == Is("uinit") /\ Begin(E.u, E.r, E.a, E.ch, E.rate, E.bits, E.ok, E.t, E.ll) /\ (~E.ok => E.err)
TProc == Is("proc") /\ (Process(E.u, E.m, E.ret, E.t, E.ll) \/ ProcessOver(E.u, E.m, E.ret, E.t, E.ll))
TEos == Is("eos") /\ End(E.u, E.t, E.ll)
THyp == Is("hyp") /\ Look(E.u, E.t, E.ll)
TBad == Is("bad") /\ BadCall(E.u, E.ret, E.err, E.t, E.ll)
TNul == Is("nul") /\ E.ret = -1 /\ E.err /\ UNCHANGED recVars
TUDel == Is("udel") /\ Destroy(E.u)
TRDel == Is("rdel") /\ Unload(E.r)
TraceInit == RInit /\ l = 1
TraceNext == TNew \/ TLoad \/ TTry \/ TAudio \/ TBegin \/ TProc \/ TEos \/ THyp \/ TBad \/ TNul \/ TUDel \/ TRDel
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
  PrintT("TRACE-MATCHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
