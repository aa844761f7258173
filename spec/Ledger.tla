------------------------------- MODULE Ledger -------------------------------
(* Who owns the memory. Every call changes the number of live bytes and blocks by d = <<bytes, blocks>>;    *)
(* the change belongs to the utterance (recognizer) the call works on. Destroying it must bring its account *)
(* to zero, and failed or refused calls must not change anything. While an utterance is decoded, its        *)
(* account stays below a limit from some point on.                                                          *)
EXTENDS Integers, Sequences
VARIABLES ru,    \* recognizer -> <<bytes, blocks>>
          uu     \* utterance -> [d, peak, at, lim]: account, largest account so far, samples so far, limit
ledgerVars == <<ru, uu>>
Plus(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Nil == <<0, 0>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Cut(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Max(x, y) == IF x > y THEN x ELSE y
Frame == 160

LInit == ru = <<>> /\ uu = <<>>
LNew == ru' = <<>> /\ uu' = <<>>
RecInit(r, ok, d) == (IF ok THEN ru' = Put(ru, r, d) ELSE d = Nil /\ UNCHANGED ru) /\ UNCHANGED uu
RecDestroy(r, d) == Plus(ru[r], d) = Nil /\ ru' = Cut(ru, r) /\ UNCHANGED uu
UttInit(u, ok, d) == (IF ok THEN uu' = Put(uu, u, [d |-> d, peak |-> d[1], at |-> 0, base |-> 0, flat |-> FALSE, slack |-> 0, per |-> 0])
                      ELSE d = Nil /\ UNCHANGED uu) /\ UNCHANGED ru
(* a successful call that took k samples *)
UttCall(u, k, d) ==
  LET x == uu[u]
      now == Plus(x.d, d)
      at == x.at + k
  IN /\ x.flat => now[1] <= x.peak + x.slack + x.per * ((at - x.base) \div Frame + 1)
     /\ uu' = [uu EXCEPT ![u] = [x EXCEPT !.d = now, !.at = at, !.peak = IF x.flat THEN @ ELSE Max(@, now[1])]]
     /\ UNCHANGED ru
UttFlat(u, slack, per) == uu' = [uu EXCEPT ![u] = [@ EXCEPT !.flat = TRUE, !.base = uu[u].at, !.slack = slack, !.per = per]] /\ UNCHANGED ru
UttBad(u, d) == d = Nil /\ UNCHANGED ledgerVars
UttDestroy(u, d) == Plus(uu[u].d, d) = Nil /\ uu' = Cut(uu, u) /\ UNCHANGED ru
(* nothing is owned by nobody: with no utterance and no recognizer the balance is zero (by construction) *)
=============================================================================
