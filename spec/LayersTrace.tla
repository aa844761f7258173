----------------------------- MODULE LayersTrace -----------------------------
EXTENDS Layers, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES net, l
tvars == <<net, l>>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TNew == Is("new") /\ net' = << >>
(* a network (or a single layer) was defined, written and read back with these contexts *)
TNet == Is("net") /\ E.ok /\ E.left = E.fl /\ E.right = E.fr /\ net' = E.ls
(* one propagation: input, input afterwards, output; a final non-exact layer is checked as a relation *)
TProp ==
  /\ Is("prop") /\ E.after = E.x /\ net' = net
  /\ LET last == net[Len(net)]
         X == IF Exact(last) THEN ApplyAll(net, E.x) ELSE ApplyAll(SubSeq(net, 1, Len(net) - 1), E.x)
     IN IF Exact(last) THEN E.y = X
        ELSE /\ Len(E.y) = Len(X)
             /\ \A r \in 1 .. Len(X) :
                  CASE last.t = "norm" -> NormRow(X[r], E.y[r])
                    [] last.t = "softmax" -> SoftmaxRow(X[r], E.y[r])
                    [] OTHER -> LogSoftmaxRow(X[r], E.y[r], E.ey[r])
TraceInit == net = << >> /\ l = 1
TraceNext == TNew \/ TNet \/ TProp
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
  PrintT("TRACE-MATCHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
