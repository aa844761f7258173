------------------------------ MODULE PoolTrace ------------------------------
EXTENDS Pool, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<poolVars, l>>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Rng(s) == {s[i] : i \in 1 .. Len(s)}

(* every call logs: log (object life-cycle events), n (allocated), f (free), bad (live objects whose  *)
(* content or link is not what was stored in them)                                                    *)
Observed == /\ E.n = Cardinality(live')
            /\ E.f = cap' - Cardinality(live')
            /\ E.bad = << >>

TNew == Is("new") /\ gc' = FALSE /\ bs' = 0 /\ live' = {} /\ prev' = << >> /\ slot' = << >> /\ cap' = 0 /\ log' = << >>
(* d: TRUE if the object type has life-cycle functions to observe *)
TPool  == Is("pool") /\ PoolNew(E.gc, E.bs) /\ E.n = 0 /\ E.f = E.bs /\ E.log = << >>
TAlloc == Is("alloc") /\ Alloc(E.prev, E.slot) /\ E.id = N + 1 /\ E.log = log' /\ Observed
TDea   == Is("dealloc") /\ Releasable(E.id) /\ Dealloc(E.id) /\ E.log = (IF E.d THEN log' ELSE << >>) /\ Observed
TGC    == Is("gc") /\ Collect(Rng(E.roots)) /\ CollectLog(E.log, Garbage(Rng(E.roots))) /\ log' = E.log /\ Observed /\ BoundedStorage
TClear == Is("clear") /\ Clear /\ (IF E.d THEN DestroyLog(E.log, live) ELSE E.log = << >>) /\ log' = E.log /\ Observed /\ BoundedStorage
TDel   == /\ Is("delete") /\ BoundedStorage /\ (IF E.d THEN DestroyLog(E.log, live) ELSE E.log = << >>)
          /\ gc' = FALSE /\ bs' = 0 /\ live' = {} /\ prev' = << >> /\ slot' = << >> /\ cap' = 0 /\ log' = << >>

(* that storage is not shared is a guard of Alloc *)
TraceInv == EnoughStorage /\ LinksLive

TraceInit == gc = FALSE /\ bs = 0 /\ live = {} /\ prev = << >> /\ slot = << >> /\ cap = 0 /\ log = << >> /\ l = 1
TraceNext == TNew \/ TPool \/ TAlloc \/ TDea \/ TGC \/ TClear \/ TDel
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
  PrintT("TRACE-MATCHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
