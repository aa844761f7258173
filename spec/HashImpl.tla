------------------------------ MODULE HashImpl ------------------------------
(* Open addressing with quadratic probing on both sides, table sizes from a list of primes, growth    *)
(* above half load. TLC checks for every history over small keys that it refines the finite map, and   *)
(* that every probe sequence ends (the probe positions of a table of size p repeat after p steps, so   *)
(* the search is finite).                                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS KeyNums, Vals, Depth, InitPrime, HashDiv, DoPrint
VARIABLES pi, b, size, abs, hist
vars == <<pi, b, size, abs, hist>>

Primes == <<2, 2, 5, 11, 17, 37, 67>>
(* configuration files have no negative numbers *)
Keys == {n - 3 : n \in KeyNums}
H(k) == IF HashDiv = 0 THEN k ELSE k \div HashDiv
None == [k |-> 0, v |-> 0, used |-> FALSE]
Empty(n) == [i \in 0 .. n - 1 |-> None]

Probe(n, k, j) ==       \* j-th position, j = 0, 1, 2 ...
  LET i == (j \div 2) + 1
      s == IF j % 2 = 0 THEN 0 - i * i ELSE i * i
  IN (H(k) + s) % n      \* % is the mathematical remainder in TLA+
RECURSIVE Search(_, _, _, _)
Search(t, n, k, j) ==
  IF j > 2 * n THEN -1                                  \* the search would never end
  ELSE LET p == Probe(n, k, j)
       IN IF ~t[p].used \/ t[p].k = k THEN p ELSE Search(t, n, k, j + 1)
Pos(t, k) == Search(t, Cardinality(DOMAIN t), k, 0)

Put(t, k, v) == LET p == Pos(t, k) IN [t EXCEPT ![p] = [k |-> k, v |-> v, used |-> TRUE]]
RECURSIVE Rehash(_, _, _)
Rehash(old, i, t) == IF i = Cardinality(DOMAIN old) THEN t
                     ELSE Rehash(old, i + 1, IF old[i].used THEN Put(t, old[i].k, old[i].v) ELSE t)
(* grow until one more element keeps the load at most one half *)
RECURSIVE Grown(_, _)
Grown(p, t) == IF (size + 1) * 2 > Primes[p] THEN Grown(p + 1, Rehash(t, 0, Empty(Primes[p + 1]))) ELSE <<p, t>>

Init == pi = InitPrime /\ b = Empty(Primes[InitPrime]) /\ size = 0 /\ abs = [k \in {} |-> 0] /\ hist = << >>
DoInsert(k, v) ==
  LET g == Grown(pi, b)
      p == Pos(g[2], k)
  IN /\ pi' = g[1]
     /\ b' = Put(g[2], k, v)
     /\ size' = IF g[2][p].used THEN size ELSE size + 1
     /\ abs' = [x \in DOMAIN abs \cup {k} |-> IF x = k THEN v ELSE abs[x]]
DoClear == b' = [i \in DOMAIN b |-> [b[i] EXCEPT !.used = FALSE]] /\ size' = 0 /\ abs' = [k \in {} |-> 0] /\ UNCHANGED pi
Next == /\ Len(hist) < Depth
        /\ \/ \E k \in Keys, v \in Vals : DoInsert(k, v) /\ hist' = Append(hist, <<"i", k, v>>)
           \/ DoClear /\ hist' = Append(hist, <<"x">>)
Spec == Init /\ [][Next]_vars

Terminates == \A k \in Keys : Pos(b, k) # -1
Refines == \A k \in Keys : LET p == Pos(b, k)
                           IN p # -1 => IF k \in DOMAIN abs THEN b[p].used /\ b[p].k = k /\ b[p].v = abs[k] ELSE ~b[p].used
SizeOk == size = Cardinality(DOMAIN abs) /\ size * 2 <= Primes[pi]
Emit == (DoPrint /\ Len(hist) = Depth) => PrintT("BEH" \o ToJson(hist))
View == IF DoPrint THEN vars ELSE <<pi, b, size, abs, <<Len(hist)>> >>
=============================================================================
