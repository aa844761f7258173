------------------------------ MODULE CliTrace ------------------------------
(* The tool and the C API in one world: an audio is first given to the API (events load, audio, uinit, proc, *)
(* eos: Recognizer.tla), then its file to the tool.                                                          *)
EXTENDS Recognizer, Json, IOUtils
C == INSTANCE Cli
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, W
tvars == <<recVars, l, W>>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Same == UNCHANGED W
NoLm == [on |-> FALSE, lm |-> [start |-> 0, arcs |-> << >>, fin |-> << >>], small |-> << >>, bos |-> 0, eos |-> 0]
Empty == [models |-> {}, wavs |-> <<>>, lists |-> <<>>]
TNew == Is("new") /\ recs' = << >> /\ auds' = << >> /\ utts' = << >> /\ W' = Empty
TLoad == Is("load") /\ E.ok /\ Load(E.r, IF E.m.lm.on THEN E.m ELSE [E.m EXCEPT !.lm = NoLm]) /\ Same
TAudio == Is("audio") /\ NewAudio(E.a, [w |-> E.w, n |-> E.n, loud |-> E.loud]) /\ Same
TBegin == Is("uinit") /\ Begin(E.u, E.r, E.a, E.ch, E.rate, E.bits, E.ok, E.t, E.ll) /\ Same
TProc == Is("proc") /\ Process(E.u, E.m, E.ret, E.t, E.ll) /\ Same
TEos == Is("eos") /\ End(E.u, E.t, E.ll) /\ Same
TRDel == Is("rdel") /\ Unload(E.r) /\ Same
TUDel == Is("udel") /\ UNCHANGED recVars /\ Same            \* the result is kept
TKeep == Is("keep") /\ W' = [W EXCEPT !.models = @ \cup {E.n}] /\ UNCHANGED recVars
(* the whole audio was given to utterance u *)
TWav == Is("wav") /\ utts[E.u].eos /\ utts[E.u].nb = auds[utts[E.u].a].n
        /\ W' = [W EXCEPT !.wavs = Append(@, [n |-> E.n, hdr |-> E.hdr, text |-> utts[E.u].text])] /\ UNCHANGED recVars
TList == Is("list") /\ W' = [W EXCEPT !.lists = Append(@, [n |-> E.n, b |-> E.b])] /\ UNCHANGED recVars
TRun == Is("run") /\ C!OutputOk(W, E.args, E.out, E.err, E.crash, E.code) /\ UNCHANGED recVars /\ Same
TraceInit == RInit /\ l = 1 /\ W = Empty
TraceNext == TNew \/ TLoad \/ TAudio \/ TBegin \/ TProc \/ TEos \/ TRDel \/ TUDel \/ TKeep \/ TWav \/ TList \/ TRun
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
  PrintT("TRACE-MATCHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
