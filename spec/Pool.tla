-------------------------------- MODULE Pool --------------------------------
(* Object pools (pool.h: Pool, GCPool). Objects are numbered in the order of their construction. A   *)
(* live object occupies one slot (a piece of storage) until it is deallocated, collected or the pool *)
(* is cleared. `log` lists what the last operation did to objects: <<kind, id>> with kind "c"         *)
(* (constructor), "k" (collect notification) and "d" (destructor).                                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLES gc,       \* TRUE: garbage collected pool
          bs,       \* slots per block
          live,     \* set of live object ids
          prev,     \* prev[i]: predecessor link of object i (0 = none), for every object ever made
          slot,     \* slot[i]: storage of object i
          cap,      \* slots the pool owns
          log
poolVars == <<gc, bs, live, prev, slot, cap, log>>

N == Len(prev)

PoolNew(g, b) ==
  /\ gc' = g /\ bs' = b /\ live' = {} /\ prev' = << >> /\ slot' = << >> /\ cap' = b /\ log' = << >>

(* Allocation of an object with predecessor p in storage s. *)
Alloc(p, s) ==
  /\ \A i \in live : slot[i] # s
  /\ live' = live \cup {N + 1}
  /\ prev' = Append(prev, p)
  /\ slot' = Append(slot, s)
  /\ cap' = IF Cardinality(live) < cap THEN cap ELSE cap + bs   \* a new block only when all is in use
  /\ log' = <<<<"c", N + 1>>>>
  /\ UNCHANGED <<gc, bs>>

(* The client may only release objects no live object points to. *)
Releasable(i) == i \in live /\ \A j \in live : prev[j] # i
Dealloc(i) ==
  /\ live' = live \ {i}
  /\ log' = <<<<"d", i>>>>
  /\ UNCHANGED <<gc, bs, prev, slot, cap>>

(* An object is younger than its predecessor. *)
Closure(S) ==
  FoldLeft(LAMBDA acc, i : IF i \in acc /\ prev[i] # 0 THEN acc \cup {prev[i]} ELSE acc, S, [k \in 1 .. N |-> N + 1 - k])

(* l: every object of G is first told that it is collected and later destroyed, nothing else happens *)
CollectLog(l, G) ==
  /\ Len(l) = 2 * Cardinality(G)
  /\ LET r == FoldLeft(LAMBDA acc, x :
                        IF ~acc.ok THEN acc
                        ELSE IF x[1] = "k" THEN [acc EXCEPT !.told = @ \cup {x[2]}, !.ok = x[2] \in G]
                        ELSE [acc EXCEPT !.dead = @ \cup {x[2]}, !.ok = x[1] = "d" /\ x[2] \in acc.told],
                      [ok |-> TRUE, told |-> {}, dead |-> {}], l)
     IN r.ok /\ r.told = G /\ r.dead = G
DestroyLog(l, G) ==
  /\ Len(l) = Cardinality(G)
  /\ {l[a] : a \in 1 .. Len(l)} = {<<"d", i>> : i \in G}

Garbage(roots) == live \ Closure(roots)
Collect(roots) ==
  /\ gc
  /\ live' = live \cap Closure(roots)
  /\ UNCHANGED <<gc, bs, prev, slot, cap>>

Clear ==
  /\ live' = {}
  /\ UNCHANGED <<gc, bs, prev, slot, cap>>

----
(* Properties *)
NoAlias == \A i, j \in live : slot[i] = slot[j] => i = j
EnoughStorage == Cardinality(live) <= cap
BoundedStorage == Cardinality({slot[i] : i \in 1 .. N}) <= cap
LinksLive == \A i \in live : prev[i] = 0 \/ prev[i] \in live
PoolInv == NoAlias /\ EnoughStorage /\ BoundedStorage /\ LinksLive
=============================================================================
