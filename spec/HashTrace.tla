------------------------------ MODULE HashTrace ------------------------------
EXTENDS HashMap, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<mapVars, l>>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TNew   == (Is("new") \/ Is("tab")) /\ MapNew
TIns   == Is("ins") /\ Insert(E.k, E.v)
TRange == Is("insrange") /\ InsertRange(E.lo, E.hi, E.m, E.b)
TFind  == Is("find") /\ Find(E.k, E.d) /\ r' = E.v
TClear == Is("clear") /\ Clear
(* lookups of all the keys in ks with default d: the keys that were not there, and the others' values *)
TAll   == /\ Is("all")
          /\ \A i \in 1 .. Len(E.ks) : Lookup(E.ks[i], E.d) = E.vs[i]
          /\ UNCHANGED mapVars
TraceInit == m = EmptyMap /\ r = 0 /\ l = 1
TraceNext == TNew \/ TIns \/ TRange \/ TFind \/ TClear \/ TAll
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
  PrintT("TRACE-MATCHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
