------------------------------ MODULE PoolImpl ------------------------------
(* The algorithm behind Pool: blocks are bump-allocated, released slots go to a free list, a          *)
(* collection marks from the roots and sweeps the slots below the bump pointer. TLC checks that it    *)
(* refines Pool.tla (property Refines) for every history up to a depth. It also prints the histories  *)
(* for replay against the real pools.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, MaxObj, BlockSize, GcPool, DoPrint
VARIABLES blocks,   \* number of blocks
          curBlock, \* block the bump pointer is in (0-based)
          curPos,   \* next position in it
          free,     \* free list (stack of slots)
          at,       \* at[s]: id of the object in slot s, 0 if none (s is 0-based, all blocks)
          pv,       \* predecessor links by id
          sl,       \* slots by id
          lg,       \* what the last operation did
          hist
vars == <<blocks, curBlock, curPos, free, at, pv, sl, lg, hist>>

InUse == {i \in 1 .. Len(pv) : \E s \in DOMAIN at : at[s] = i}
P == INSTANCE Pool WITH gc <- GcPool, bs <- BlockSize, live <- InUse, prev <- pv, slot <- sl,
                        cap <- blocks * BlockSize, log <- lg

Init == /\ blocks = 1 /\ curBlock = 0 /\ curPos = 0 /\ free = << >> /\ at = [s \in 0 .. BlockSize - 1 |-> 0]
        /\ pv = << >> /\ sl = << >> /\ lg = << >> /\ hist = << >>
Log(e) == hist' = Append(hist, e)

Place(p, s) == /\ pv' = Append(pv, p) /\ sl' = Append(sl, s)
               /\ lg' = <<<<"c", Len(pv) + 1>>>>

Grow(f) == [s \in 0 .. blocks * BlockSize + BlockSize - 1 |-> IF s \in DOMAIN f THEN f[s] ELSE 0]
DoAlloc(p) ==
  /\ Len(pv) < MaxObj
  /\ IF free # << >>
     THEN LET s == free[Len(free)]
          IN /\ free' = SubSeq(free, 1, Len(free) - 1)
             /\ Place(p, s)
             /\ at' = [at EXCEPT ![s] = Len(pv) + 1]
             /\ UNCHANGED <<blocks, curBlock, curPos>>
     ELSE LET full == curPos = BlockSize
              more == full /\ curBlock = blocks - 1
              a2 == IF more THEN Grow(at) ELSE at
              cb == IF full THEN curBlock + 1 ELSE curBlock
              cp == IF full THEN 0 ELSE curPos
              s == cb * BlockSize + cp
          IN /\ blocks' = IF more THEN blocks + 1 ELSE blocks
             /\ curBlock' = cb
             /\ curPos' = cp + 1
             /\ Place(p, s)
             /\ at' = [a2 EXCEPT ![s] = Len(pv) + 1]
             /\ UNCHANGED free

DoDealloc(i) ==
  /\ P!Releasable(i)
  /\ at' = [at EXCEPT ![sl[i]] = 0]
  /\ free' = Append(free, sl[i])
  /\ lg' = <<<<"d", i>>>>
  /\ UNCHANGED <<blocks, curBlock, curPos, pv, sl>>

RECURSIVE Mark(_)
Mark(S) == LET T == S \cup ({pv[i] : i \in S} \ {0}) IN IF T = S THEN S ELSE Mark(T)
Bumped == curBlock * BlockSize + curPos
RECURSIVE Sweep(_, _)
(* slots of unmarked objects in address order *)
Sweep(s, marked) == IF s >= Bumped THEN << >>
                    ELSE (IF at[s] # 0 /\ at[s] \notin marked THEN <<s>> ELSE << >>) \o Sweep(s + 1, marked)
DoGC(roots) ==
  LET f == Sweep(0, Mark(roots))
  IN /\ GcPool
     /\ at' = [s \in DOMAIN at |-> IF \E k \in 1 .. Len(f) : f[k] = s THEN 0 ELSE at[s]]
     /\ free' = free \o f
     /\ lg' = [k \in 1 .. Len(f) |-> <<"k", at[f[k]]>>] \o [k \in 1 .. Len(f) |-> <<"d", at[f[k]]>>]
     /\ UNCHANGED <<blocks, curBlock, curPos, pv, sl>>

RECURSIVE All(_)
All(s) == IF s >= Bumped THEN << >> ELSE (IF at[s] # 0 THEN <<at[s]>> ELSE << >>) \o All(s + 1)
DoClear ==
  LET f == All(0)
  IN /\ at' = [s \in DOMAIN at |-> 0]
     /\ free' = << >> /\ curBlock' = 0 /\ curPos' = 0
     /\ lg' = [k \in 1 .. Len(f) |-> <<"d", f[k]>>]
     /\ UNCHANGED <<blocks, pv, sl>>

Next ==
  /\ Len(hist) < Depth
  /\ \/ \E p \in InUse \cup {0} : (GcPool \/ p = 0) /\ DoAlloc(p) /\ Log(<<"a", p>>)
     \/ \E i \in InUse : DoDealloc(i) /\ Log(<<"d", i>>)
     \/ \E r \in SUBSET InUse : DoGC(r) /\ Log(<<"g", r>>)
     \/ DoClear /\ Log(<<"x">>)
Spec == Init /\ [][Next]_vars

(* refinement: each step is a step of Pool with the log Pool allows *)
AbsStep ==
  \/ Len(sl') > Len(sl) /\ P!Alloc(pv'[Len(pv')], sl'[Len(sl')])
  \/ \E i \in InUse : P!Releasable(i) /\ P!Dealloc(i)
  \/ \E r \in SUBSET InUse : P!Collect(r) /\ P!CollectLog(lg', P!Garbage(r))
  \/ P!Clear /\ P!DestroyLog(lg', InUse)
Refines == [][AbsStep]_<<blocks, curBlock, curPos, free, at, pv, sl, lg>>
Inv == P!PoolInv /\ \A k \in 1 .. Len(free) : at[free[k]] = 0
Emit == (DoPrint /\ Len(hist) = Depth) => PrintT("BEH" \o ToJson(hist))
View == IF DoPrint THEN vars ELSE <<blocks, curBlock, curPos, free, at, pv, sl, lg, <<Len(hist)>> >>
=============================================================================
