----------------------------- MODULE ConvertTrace -----------------------------
EXTENDS Convert, Json, IOUtils, TLC
LOCAL K == INSTANCE Kaldi
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES net, l
tvars == <<net, l>>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TNew == Is("new") /\ net' = <<>>
(* one run of a tool: input texts, exit status zero, output file *)
TTrans == /\ Is("trans") /\ net' = net
          /\ LET F == TransFields(E.text) IN
               /\ (TransOk(F) => E.ok /\ TransFile(F, E.out))
               /\ (TransBad(F) => ~E.ok)
TPrune == /\ Is("prune") /\ net' = net
          /\ LET a == Arpa(E.text) IN
               /\ E.ok = ArpaOk(a)
               /\ (E.ok => Pruned(a, E.out))
TUni == /\ Is("uni") /\ net' = net
        /\ LET a == Arpa(E.text)
               V == VocabFields(E.vocab)
           IN IF VocabOk(V) THEN IF ArpaOk(a) /\ UniKnown(a, V)
                                 THEN E.ok /\ (UniOpen(a, V) \/ UniFile(a, V, E.out))
                                 ELSE ~E.ok
              ELSE VocabBad(V) => ~E.ok
TWords == /\ Is("words") /\ net' = net
          /\ LET F == WordsFields(E.text) IN
               /\ (WordsOk(F) => E.ok /\ WordsFile(F, E.out))
               /\ (WordsBad(F) => ~E.ok)
TCmvn == /\ Is("cmvn") /\ net' = net
         /\ (CmvnOpen(E.text) \/ LET N == CmvnNums(E.text) IN
               /\ E.ok = (Len(N) = 82)
               /\ (E.ok => CmvnFile(N, E.out)))
TFst == Is("fst") /\ net' = net /\ E.ok /\ FstFile(E.fst, E.out)
TAm == Is("am") /\ E.ok /\ AmFile(E.net, E.out, E.prior) /\ net' = E.nodes
(* the converted network, loaded and run by the engine *)
TLoad == Is("load") /\ E.ok /\ E.left + E.right + 1 = K!KNeed(net) /\ net' = net
TProp == Is("prop") /\ net' = net /\ (Len(E.x) >= K!KNeed(net) => E.y = K!KNet(net, E.x))
TraceInit == net = <<>> /\ l = 1
TraceNext == TNew \/ TTrans \/ TPrune \/ TUni \/ TWords \/ TCmvn \/ TFst \/ TAm \/ TLoad \/ TProp
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
  PrintT("TRACE-MATCHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
