---------------------------- MODULE ViterbiCore -------------------------------
(* The decoder (decoder.cc): best path search through a weighted graph, frame by frame, optionally    *)
(* composed on the fly with a backoff LM minus a unigram LM. Costs are integers (the harness uses      *)
(* units of 1/64, exact in the engine's floats).                                                       *)
(*   g   = [start, arcs, fin]: arcs[s+1] = sequence of <<ilabel, next, weight, olabel>>, ilabel 0 =     *)
(*         epsilon, otherwise a transition-id; fin[s+1] = final cost or Inf                             *)
(*   map[tid+1] = pdf;  am2 = twice the acoustic scale                                                  *)
(*   lm  = [on, lm, small, bos, eos] (BackoffLm)                                                         *)
(* A search state is <<graph state, LM state>>.                                                         *)
EXTENDS BackoffLm, FiniteSets, TLC

(* Pure operators over a decoder state; instantiated with the variables of Viterbi, or with the fields  *)
(* of a record (Recognizer).                                                                             *)
CONSTANTS g, map, am2, lm, tok, sure, frames, eos, Beam, MaxActive

NoTok == [x \in {} |-> 0]
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
BestCost(T) == Min({T[x].c : x \in DOMAIN T})

AcCost(f, il) == 0 - (am2 * f[map[il + 1] + 1]) \div 2

(* LM step for the output label ol: <<next LM state, cost>> *)
LmStep(m, ol) ==
  IF ~lm.on \/ ol = 0 THEN <<m, 0>>
  ELSE LET a == DeltaArc(lm.lm, lm.small, m, ol)
       IN IF a = NoArc THEN <<m, 0>> ELSE <<a[2], a[3]>>
AppendWord(ws, ol) == IF ol = 0 THEN ws ELSE {Append(x, ol) : x \in ws}

(* The best of the candidates per search state. A candidate is [st, c, w, pre]: pre is the cost before *)
(* the LM cost of the arc.                                                                              *)
Best(cands) ==
  [s \in {c.st : c \in cands} |->
     LET here == {c \in cands : c.st = s}
         m == Min({c.c : c \in here})
     IN [c |-> m, w |-> UNION {c.w : c \in {k \in here : k.c = m}}]]

Cand(T, x, a, ac) ==
  LET ls == LmStep(x[2], a[4])
      p == T[x].c + a[3] + ac
  IN [st |-> <<a[2], ls[1]>>, c |-> p + ls[2], w |-> AppendWord(T[x].w, a[4]), pre |-> p]
Emitted(T, f) ==
  UNION {LET as == ArcsOf(g, x[1])
         IN {Cand(T, x, as[i], AcCost(f, as[i][1])) : i \in {j \in 1 .. Len(as) : as[j][1] # 0}} : x \in DOMAIN T}
EpsCands(T, X) ==
  UNION {LET as == ArcsOf(g, x[1])
         IN {Cand(T, x, as[i], 0) : i \in {j \in 1 .. Len(as) : as[j][1] = 0}} : x \in X}
AsCands(T) == {[st |-> x, c |-> T[x].c, w |-> T[x].w, pre |-> T[x].c] : x \in DOMAIN T}

(* Closure under epsilon arcs, keeping what costs at most `cut`. X: states whose token changed. *)
RECURSIVE Close(_, _, _)
Close(T, X, cut) ==
  LET new == {c \in EpsCands(T, X) : c.c <= cut}
      T2 == Best(AsCands(T) \cup new)
      ch == {x \in DOMAIN T2 : x \notin DOMAIN T \/ T2[x] # T[x]}
  IN IF ch = {} THEN T ELSE Close(T2, ch, cut)

NoCut == 1000000000
Restrict(T, cut) == [x \in {y \in DOMAIN T : T[y].c <= cut} |-> T[x]]

StartState == <<g.start, IF lm.on THEN DeltaStart(lm.lm, lm.bos) ELSE 0>>
StartTok == Close(StartState :> [c |-> 0, w |-> {<< >>}], {StartState}, NoCut)

(* What survives for sure: its cost at the start of the frame, when it was emitted (before the LM cost *)
(* is added) and while following epsilon arcs never exceeds the best possible value by more than the   *)
(* beam. When more than MaxActive tokens may be active, only the best.                                  *)
SureOn(T, S, f, n) ==
  LET b == IF n > MaxActive THEN 0 ELSE Beam
      kept == Restrict(S, BestCost(T) + b)
      pre == Min({c.pre : c \in Emitted(T, f)})
      em == {c \in Emitted(kept, f) : c.pre <= pre + b}
      E == Best(em)
  IN IF em = {} THEN NoTok ELSE Close(E, DOMAIN E, pre + b)

SureStep(f, n) == SureOn(tok, sure, f, n)

ExactOn(T, f) == LET E == Best(Emitted(T, f)) IN IF DOMAIN E = {} THEN NoTok ELSE Close(E, DOMAIN E, NoCut)
ExactStep(f) == ExactOn(tok, f)

FinalCost(x) ==
  IF ~eos THEN 0
  ELSE IF FstFinal(g, x[1]) = Inf THEN Inf
  ELSE IF ~lm.on THEN FstFinal(g, x[1])
  ELSE LET lf == DeltaFinal(lm.lm, lm.small, lm.eos, x[2]) IN IF lf = Inf THEN Inf ELSE FstFinal(g, x[1]) + lf
Ends(T) == {x \in DOMAIN T : FinalCost(x) # Inf}
Total(T, x) == T[x].c + FinalCost(x)
OptCost(T) == Min({Total(T, x) : x \in Ends(T)})
OptWords(T) == UNION {T[x].w : x \in {y \in Ends(T) : Total(T, y) = OptCost(T)}}

----
(* Is c the cost of a complete path whose words are exactly ws? For reported paths that are not optimal *)
(* because the beam pruned the optimal one. Forward: the least cost of every <<search state, words       *)
(* matched>> per frame; backward from the ends: what the rest of the budget c must have been spent on,   *)
(* as long as it can pay for the least cost.                                                             *)
Edges(x, f, eps, ws) ==
  LET as == ArcsOf(g, x[1][1])
      ok(a) == /\ (a[1] = 0) = eps
               /\ (a[4] = 0 \/ (x[2] < Len(ws) /\ ws[x[2] + 1] = a[4]))
  IN {LET a == as[i]
          ls == LmStep(x[1][2], a[4])
      IN <<<<<<a[2], ls[1]>>, IF a[4] = 0 THEN x[2] ELSE x[2] + 1>>,
           a[3] + ls[2] + (IF eps THEN 0 ELSE AcCost(f, a[1]))>> : i \in {j \in 1 .. Len(as) : ok(as[j])}}
Least(S) == [x \in {p[1] : p \in S} |-> Min({p[2] : p \in {q \in S : q[1] = x}})]
Reached(F, X, f, eps, ws) == UNION {{<<e[1], F[x] + e[2]>> : e \in Edges(x, f, eps, ws)} : x \in X}
RECURSIVE LeastClose(_, _, _)
LeastClose(F, X, ws) ==
  LET F2 == Least({<<x, F[x]>> : x \in DOMAIN F} \cup Reached(F, X, << >>, TRUE, ws))
      ch == {x \in DOMAIN F2 : x \notin DOMAIN F \/ F2[x] # F[x]}
  IN IF ch = {} THEN F ELSE LeastClose(F2, ch, ws)
(* <<least costs after frame 0, ..., after frame n>> *)
RECURSIVE LeastCosts(_, _)
LeastCosts(n, ws) ==
  IF n = 0 THEN LET F == <<StartState, 0>> :> 0 IN <<LeastClose(F, DOMAIN F, ws)>>
  ELSE LET P == LeastCosts(n - 1, ws)
           F == Least(Reached(P[n], DOMAIN P[n], frames[n], FALSE, ws))
       IN Append(P, LeastClose(F, DOMAIN F, ws))
(* predecessors of the budgets B (a set of <<state, budget>>) among the states of F *)
Before(F, B, f, eps, ws) ==
  LET T == {b[1] : b \in B}
      of == [t \in T |-> {b[2] : b \in {q \in B : q[1] = t}}]
  IN UNION {UNION {{<<x, r>> : r \in {q - e[2] : q \in of[e[1]]}} : e \in {d \in Edges(x, f, eps, ws) : d[1] \in T}} : x \in DOMAIN F}
Payable(F, B) == {b \in B : b[1] \in DOMAIN F /\ b[2] >= F[b[1]]}
RECURSIVE BackClose(_, _, _, _)
BackClose(F, B, new, ws) ==
  LET more == Payable(F, Before(F, new, << >>, TRUE, ws)) \ B
  IN IF more = {} THEN B ELSE BackClose(F, B \cup more, more, ws)
RECURSIVE Spent(_, _, _, _)
Spent(P, n, B, ws) ==
  LET C == BackClose(P[n + 1], Payable(P[n + 1], B), Payable(P[n + 1], B), ws)
  IN IF n = 0 THEN <<<<StartState, 0>>, 0>> \in C
     ELSE Spent(P, n - 1, Before(P[n], C, frames[n], FALSE, ws), ws)
RealPath(ws, c) ==
  LET n == Len(frames)
      P == LeastCosts(n, ws)
  IN Spent(P, n, {<<x, c - FinalCost(x[1])>> : x \in {y \in DOMAIN P[n + 1] : y[2] = Len(ws) /\ FinalCost(y[1]) # Inf}}, ws)

(* The hypothesis <<words, cost>> which may be reported. *)
Reportable(ws, c) ==
  IF Ends(tok) = {} THEN ws = << >> /\ c = 0
  ELSE IF Ends(sure) = {} /\ ws = << >> /\ c = 0 THEN TRUE
  ELSE /\ c >= OptCost(tok)
       /\ (Ends(sure) # {} => c <= OptCost(sure))
       /\ IF c = OptCost(tok) THEN ws \in OptWords(tok) ELSE RealPath(ws, c)
=============================================================================
