------------------------------- MODULE HashMap -------------------------------
(* HashTable (hashtable.h) is a finite map. A key is any value; the map starts empty.                 *)
EXTENDS Integers, Sequences
VARIABLES m,      \* the map
          r       \* result of the last Find
mapVars == <<m, r>>

EmptyMap == [k \in {} |-> 0]
MapNew == m' = EmptyMap /\ r' = 0
Insert(k, v) == /\ m' = [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
                /\ UNCHANGED r
(* lo -> q * lo + c, ..., hi -> q * hi + c, one after the other *)
InsertRange(lo, hi, q, c) == /\ m' = [x \in DOMAIN m \cup lo .. hi |-> IF x \in lo .. hi THEN q * x + c ELSE m[x]]
                             /\ UNCHANGED r
Lookup(k, d) == IF k \in DOMAIN m THEN m[k] ELSE d
Find(k, d) == r' = Lookup(k, d) /\ UNCHANGED m
Clear == m' = EmptyMap /\ UNCHANGED r
=============================================================================
