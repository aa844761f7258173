------------------------------- MODULE LmTrace -------------------------------
EXTENDS BackoffLm, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES lm, cfg, l
tvars == <<lm, cfg, l>>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1 
Keep == UNCHANGED <<lm, cfg>>
TNew == Is("new") /\ lm' = [start |-> 0, arcs |-> << >>, fin |-> << >>] /\ cfg' = [small |-> << >>, bos |-> 0, eos |-> 0]
TLm == Is("lm") /\ lm' = [start |-> E.start, arcs |-> E.arcs, fin |-> E.fin]
       /\ cfg' = [small |-> E.small, bos |-> E.bos, eos |-> E.eos] /\ E.ok
Arc(lev, s, x) ==
  CASE lev = "fst" -> FstArc(lm, s, x)
    [] lev \in {"lm", "lm0"} -> LmArc(lm, s, x)
    [] lev \in {"delta", "cache"} -> DeltaArc(lm, cfg.small, s, x)
Fin(lev, s) ==
  CASE lev = "fst" -> FstFinal(lm, s)
    [] lev \in {"lm", "lm0"} -> LmFinal(lm, s)
    [] lev \in {"delta", "cache"} -> DeltaFinal(lm, cfg.small, cfg.eos, s)
TArc == Is("arc") /\ Keep /\ E.arc = Arc(E.lev, E.s, E.x)
TFin == Is("final") /\ Keep /\ E.w = Fin(E.lev, E.s)
TIter == Is("iter") /\ Keep /\ E.arcs = ArcsOf(lm, E.s)
TStart == Is("start") /\ Keep /\ E.s = (IF E.lev \in {"delta", "cache"} THEN DeltaStart(lm, cfg.bos) ELSE lm.start)
TraceInit == lm = [start |-> 0, arcs |-> << >>, fin |-> << >>] /\ cfg = [small |-> << >>, bos |-> 0, eos |-> 0] /\ l = 1
TraceNext == TNew \/ TLm \/ TArc \/ TFin \/ TIter \/ TStart
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
  PrintT("TRACE-MATCHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
