------------------------------ MODULE MCViterbi ------------------------------
(* Checks on a family of small graphs, for all frame sequences:                                         *)
(*  - the token recursion equals the definition (minimum over all explicit paths),                      *)
(*  - the pruned search of decoder.cc (running cutoff, any processing order) reports something          *)
(*    between the optimum and the best path inside the beam.                                            *)
EXTENDS Viterbi, Json
CONSTANTS Depth, UseLm, DoPrint, Family
VARIABLES paths,    \* all explicit paths: <<search state, cost, words>>
          impl      \* token sets the pruned search may hold: set of functions state -> [c, w]
vars == <<vitVars, paths, impl>>

A0 == {<<1, 1, 0, 1>>, <<2, 2, 1, 2>>, <<0, 1, 1, 3>>, <<1, 0, 2, 0>>}
A1 == {<<1, 1, 0, 0>>, <<2, 2, 0, 1>>, <<0, 2, 1, 2>>, <<1, 0, 1, 0>>}
A2 == {<<2, 2, 1, 0>>, <<1, 1, 0, 2>>, <<1, 0, 0, 3>>}
Graphs == {[start |-> 0, arcs |-> <<SetToSeq(a), SetToSeq(b), SetToSeq(c)>>, fin |-> f] :
           a \in (SUBSET A0) \ {{}}, b \in IF Family = 0 THEN {A1} ELSE SUBSET A1, c \in SUBSET A2,
           f \in IF Family <= 1 THEN {<<Inf, 1, 0>>} ELSE {<<Inf, 1, 0>>, <<0, Inf, 3>>, <<Inf, Inf, Inf>>}}
Frames == {<<0, 0 - 4>>, <<0 - 4, 0>>, <<0 - 1, 0 - 2>>}
NoLm == [on |-> FALSE, lm |-> [start |-> 0, arcs |-> << >>, fin |-> << >>], small |-> << >>, bos |-> 0, eos |-> 0]
(* words 1..3, </s> = 4, <s> = 5; state 1 after word 1, state 2 after <s> *)
TheLm == [start |-> 0,
          arcs |-> << << <<1, 1, 2, 1>>, <<2, 0, 1, 2>>, <<4, 0, 1, 4>>, <<5, 2, 0, 5>> >>,
                      << <<0, 0, 1, 0>>, <<2, 1, 3, 2>> >>,
                      << <<0, 0, 2, 0>>, <<1, 1, 0, 1>> >> >>,
          fin |-> <<0, Inf, Inf>>]
ALm == [on |-> TRUE, lm |-> TheLm, small |-> <<0, 1, 2, 0, 1, 0>>, bos |-> 5, eos |-> 4]

PathStep(S, f, eps) ==
  UNION {LET as == ArcsOf(g, x[1][1])
         IN {LET a == as[i] ls == LmStep(x[1][2], a[4]) ac == IF eps THEN 0 ELSE AcCost(f, a[1])
             IN <<<<a[2], ls[1]>>, x[2] + a[3] + ac + ls[2], IF a[4] = 0 THEN x[3] ELSE Append(x[3], a[4])>>
             : i \in {j \in 1 .. Len(as) : (as[j][1] = 0) = eps}} : x \in S}
RECURSIVE PathClose(_)
PathClose(S) == LET T == S \cup PathStep(S, << >>, TRUE) IN IF T = S THEN S ELSE PathClose(T)

(* --- the pruned search, emission candidates processed in any order of tokens *)
RECURSIVE Orders(_)
Orders(S) == IF S = {} THEN {<< >>} ELSE UNION {{<<x>> \o o : o \in Orders(S \ {x})} : x \in S}
Put(T, st, c, w) == IF st \in DOMAIN T /\ T[st].c <= c THEN T ELSE (st :> [c |-> c, w |-> w]) @@ T
RECURSIVE ArcLoop(_, _, _, _, _, _)
ArcLoop(T, x, i, f, acc, cut) ==        \* acc: new tokens, cut: running cutoff
  LET as == ArcsOf(g, x[1])
  IN IF i > Len(as) THEN <<acc, cut>>
     ELSE IF as[i][1] = 0 THEN ArcLoop(T, x, i + 1, f, acc, cut)
     ELSE LET c == Cand(T, x, as[i], AcCost(f, as[i][1]))
          IN IF c.pre > cut THEN ArcLoop(T, x, i + 1, f, acc, cut)
             ELSE ArcLoop(T, x, i + 1, f, Put(acc, c.st, c.c, c.w), IF c.pre + Beam < cut THEN c.pre + Beam ELSE cut)
RECURSIVE TokLoop(_, _, _, _, _)
TokLoop(T, o, f, acc, cut) ==
  IF o = << >> THEN <<acc, cut>>
  ELSE LET r == ArcLoop(T, Head(o), 1, f, acc, cut) IN TokLoop(T, Tail(o), f, r[1], r[2])
ImplStep(T, f) ==
  IF DOMAIN T = {} THEN {NoTok}
  ELSE LET b == BestCost(T)
           live == {x \in DOMAIN T : T[x].c <= b + Beam}
           firsts == {x \in DOMAIN T : T[x].c = b}
           cut0(x) == LET s == {Cand(T, x, ArcsOf(g, x[1])[i], AcCost(f, ArcsOf(g, x[1])[i][1])).pre :
                                 i \in {j \in 1 .. Len(ArcsOf(g, x[1])) : ArcsOf(g, x[1])[j][1] # 0}}
                      IN IF s = {} THEN NoCut ELSE Min(s) + Beam
       IN {LET r == TokLoop(T, o, f, NoTok, cut0(x)) IN Close(r[1], DOMAIN r[1], r[2]) : o \in Orders(live), x \in firsts}

MCInit ==
  /\ g \in Graphs /\ map = <<0, 0, 1>> /\ am2 = 2 /\ lm = (IF UseLm THEN ALm ELSE NoLm)
  /\ tok = StartTok /\ sure = StartTok /\ frames = << >> /\ dead = FALSE /\ eos = FALSE
  /\ paths = PathClose({<<StartState, 0, << >> >>})
  /\ impl = {StartTok}
Next ==
  \/ /\ ~eos /\ ~dead /\ Len(frames) < Depth
     /\ \E f \in Frames :
          /\ Frame(f, DOMAIN ExactStep(f) # {}, 1)
          /\ paths' = PathClose(PathStep(paths, f, FALSE))
          /\ impl' = IF DoPrint THEN {} ELSE UNION {ImplStep(T, f) : T \in impl}
  \/ ~eos /\ EndOfStream /\ UNCHANGED <<paths, impl>>
Spec == MCInit /\ [][Next]_vars

Definition ==
  \A x \in {p[1] : p \in paths} :
     LET here == {p \in paths : p[1] = x}
         m == Min({p[2] : p \in here})
     IN /\ x \in DOMAIN tok /\ tok[x].c = m
        /\ tok[x].w = {p[3] : p \in {q \in here : q[2] = m}}
TokensAreReached == DOMAIN tok = {p[1] : p \in paths}
BestIsMin == Ends(tok) # {} =>
  LET all == {<<p[2] + FinalCost(p[1]), p[3]>> : p \in {q \in paths : FinalCost(q[1]) # Inf}}
      m == Min({a[1] : a \in all})
  IN OptCost(tok) = m /\ OptWords(tok) = {a[2] : a \in {b \in all : b[1] = m}}
(* whatever the pruned search reports is reportable *)
PrunedSearchReportable ==
  \A T \in impl : IF Ends(T) = {} THEN Reportable(<< >>, 0)
                  ELSE \A w \in OptWords(T) : Reportable(w, OptCost(T))
Emit == (DoPrint /\ eos /\ Len(frames) = Depth) => PrintT("BEH" \o ToJson([g |-> g, frames |-> frames]))
=============================================================================
