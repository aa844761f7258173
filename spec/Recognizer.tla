------------------------------ MODULE Recognizer ------------------------------
(* The recognizer as seen through its C API (ce_stt.h): the composition of PCM conversion, framing,     *)
(* scoring in batches with context, and the search. An utterance is determined by the audio bytes it     *)
(* was given so far; how they were divided, and what happens to other utterances, does not matter.       *)
(*   model = [g, map, lm, syms, left, right, chunk, tab]: graph, transition-id map, LM (Viterbi.tla),    *)
(*           symbol table <<id, name>>, context and chunk size, and the score table of the acoustic       *)
(*           model: which score row a pattern of loud and quiet frames gets.                               *)
(*   audio = [w, n, loud]: bytes per sample, bytes, loud intervals [from, to) of samples                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Text
CONSTANTS Shift, Length,     \* frame shift and length in samples (160, 400)
          Period,            \* the partial hypothesis is refreshed every Period frames (20)
          Beam, MaxActive,   \* as in Viterbi
          LlUnit,            \* unit of the logged likelihood (4096) ...
          CostUnit           \* ... and of costs (4)
VARIABLES recs,   \* recognizer -> model
          auds,   \* audio -> [w, n, loud]
          utts    \* utterance -> state
recVars == <<recs, auds, utts>>

(* the search of utterance state u with model m *)
V(m, u) == INSTANCE ViterbiCore WITH g <- m.g, map <- m.map, am2 <- 2, lm <- m.lm, tok <- u.tok, sure <- u.sure,
                                 frames <- u.frames, eos <- u.eos

Supported(ch, rate, bits) == ch = 1 /\ rate = 16000 /\ bits \in {8, 16, 32}
NumFrames(s) == IF s < Length THEN 0 ELSE 1 + (s - Length) \div Shift
(* score rows that are out after n frames *)
Rows(m, n) == IF n - m.right < m.chunk THEN 0 ELSE m.chunk * ((n - m.right) \div m.chunk)

(* frame i (from 0) is loud when it overlaps a loud interval *)
Loud(a, i) == \E k \in 1 .. Len(a.loud) : a.loud[k][1] < Shift * i + Length /\ a.loud[k][2] > Shift * i
Pow2(k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN 2 ELSE IF k = 2 THEN 4 ELSE IF k = 3 THEN 8 ELSE IF k = 4 THEN 16 ELSE 32
(* pattern of the frames around frame t (from 1) of n frames *)
Pattern(m, a, t, n) ==
  LET cl(i) == IF i < 1 THEN 1 ELSE IF i > n THEN n ELSE i
      bit(k) == IF Loud(a, cl(t - m.left + k) - 1) THEN Pow2(k) ELSE 0
      RECURSIVE sum(_)
      sum(k) == IF k < 0 THEN 0 ELSE bit(k) + sum(k - 1)
  IN sum(m.left + m.right)
ScoreRow(m, a, t, n) == m.tab[Pattern(m, a, t, n) + 1]

(* forces TLC to evaluate an expression once *)
The(S) == CHOOSE x \in S : TRUE
(* decode one more frame *)
Step(m, u, f) ==
  LET T == V(m, u)!ExactStep(f)
      S == V(m, u)!SureStep(f, 1)
  IN [u EXCEPT !.tok = T, !.sure = S, !.frames = Append(@, f)]
RECURSIVE Decode(_, _, _, _, _)
(* rows u.d+1 .. b, n frames known *)
Decode(m, a, u, b, n) == IF Len(u.frames) >= b THEN u 
                         ELSE The({Decode(m, a, x, b, n) : x \in {Step(m, u, ScoreRow(m, a, Len(u.frames) + 1, n))}})

(* ------------------------------------------------------------------ hypotheses *)
(* the words of a text, separated by single spaces; 0 for what is no word *)
WordsOf(m, s) ==
  IF s = <<>> THEN <<>>
  ELSE LET sp == SelectSeq([i \in 1 .. Len(s) |-> i], LAMBDA i : s[i] = 32)
           from(k) == IF k = 1 THEN 1 ELSE sp[k - 1] + 1
           to(k) == IF k = Len(sp) + 1 THEN Len(s) ELSE sp[k] - 1
           id(x) == LET S == {k \in 1 .. Len(m.syms) : m.syms[k][2] = x} IN IF S = {} THEN 0 ELSE m.syms[CHOOSE k \in S : TRUE][1]
       IN [k \in 1 .. Len(sp) + 1 |-> id(SubSeq(s, from(k), to(k)))]
Abs(x) == IF x < 0 THEN 0 - x ELSE x
(* the cost whose quotient by the number of frames is the likelihood ll *)
CostOf(ll, n) == LET q == LlUnit \div CostUnit IN (ll * n + q \div 2) \div q
(* text s and likelihood ll may be the hypothesis of u *)
HypOk(m, u, s, ll) ==
  LET n == Len(u.frames)
  IN IF s = <<>>
     THEN IF V(m, u)!Ends(u.tok) = {} \/ V(m, u)!Ends(u.sure) = {} THEN TRUE
          ELSE <<>> \in V(m, u)!OptWords(u.tok) \/ V(m, u)!OptCost(u.sure) > V(m, u)!OptCost(u.tok)
     ELSE \E ws \in {WordsOf(m, s)} :
             /\ \A i \in 1 .. Len(ws) : ws[i] # 0
             /\ IF n = 0 THEN ws \in V(m, u)!OptWords(u.tok)
                ELSE LET c == CostOf(ll, n)
                     IN Abs(ll * n - c * (LlUnit \div CostUnit)) <= n + 2 /\ V(m, u)!Reportable(ws, c)

(* ------------------------------------------------------------------ calls *)
NoTok == [x \in {} |-> 0]
Fresh(r, a, w) == [r |-> r, a |-> a, w |-> w, nb |-> 0, tok |-> NoTok, sure |-> NoTok, frames |-> <<>>, eos |-> FALSE, over |-> FALSE, text |-> <<>>, ll |-> 0]
Started(m, u) == LET T == V(m, u)!StartTok IN [u EXCEPT !.tok = T, !.sure = T]

RInit == recs = <<>> /\ auds = <<>> /\ utts = <<>>
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Load(r, m) == recs' = With(recs, r, m) /\ UNCHANGED <<auds, utts>>
Unload(r) == r \in DOMAIN recs /\ recs' = Without(recs, r) /\ UNCHANGED <<auds, utts>>
NewAudio(a, x) == auds' = With(auds, a, x) /\ UNCHANGED <<recs, utts>>

Begin(i, r, a, ch, rate, bits, ok, text, ll) ==
  /\ ok = Supported(ch, rate, bits)
  /\ IF ok THEN /\ utts' = With(utts, i, Started(recs[r], Fresh(r, a, bits \div 8)))
                /\ text = <<>> /\ ll = 0
     ELSE utts' = utts
  /\ UNCHANGED <<recs, auds>>

(* the next k bytes of the audio: ret = samples completed *)
Process(i, k, ret, text, ll) ==
  LET u == utts[i]
      m == recs[u.r]
      a == auds[u.a]
      s0 == u.nb \div u.w
      s1 == (u.nb + k) \div u.w
      n == NumFrames(s1)
      d0 == Rows(m, NumFrames(s0))
      d1 == Rows(m, n)
      q == Period * (d1 \div Period)           \* the last refresh point
  IN /\ ~u.eos /\ u.nb + k <= a.n
     /\ ret = s1 - s0
     /\ \E mid \in {IF q > d0 THEN Decode(m, a, u, q, n) ELSE u} :
          /\ IF q > d0 THEN HypOk(m, mid, text, ll) /\ (text = <<>> => ll = u.ll)
             ELSE text = u.text /\ ll = u.ll
          /\ \E v \in {Decode(m, a, mid, d1, n)} :
               utts' = [utts EXCEPT ![i] = [v EXCEPT !.nb = u.nb + k, !.text = text, !.ll = ll]]
     /\ UNCHANGED <<recs, auds>>

(* audio after the end of the stream: the samples are counted, what the hypothesis becomes is left open *)
ProcessOver(i, k, ret, text, ll) ==
  LET u == utts[i]
  IN /\ u.eos /\ u.nb + k <= auds[u.a].n
     /\ ret = (u.nb + k) \div u.w - u.nb \div u.w
     /\ utts' = [utts EXCEPT ![i] = [u EXCEPT !.nb = u.nb + k, !.over = TRUE, !.text = text, !.ll = ll]]
     /\ UNCHANGED <<recs, auds>>

(* a call with invalid arguments changes nothing *)
BadCall(i, ret, err, text, ll) ==
  ret = -1 /\ err /\ text = utts[i].text /\ ll = utts[i].ll /\ UNCHANGED recVars

End(i, text, ll) ==
  LET u == utts[i]
      m == recs[u.r]
      a == auds[u.a]
      n == NumFrames(u.nb \div u.w)
  IN /\ IF u.over THEN utts' = [utts EXCEPT ![i] = [u EXCEPT !.text = text, !.ll = ll]]
        ELSE IF u.eos THEN text = u.text /\ ll = u.ll /\ UNCHANGED utts      \* the stream has ended before
        ELSE \E v \in {[Decode(m, a, u, n, n) EXCEPT !.eos = TRUE]} :
               /\ HypOk(m, v, text, ll)
               /\ utts' = [utts EXCEPT ![i] = [v EXCEPT !.text = text, !.ll = ll]]
     /\ UNCHANGED <<recs, auds>>
Look(i, text, ll) == text = utts[i].text /\ ll = utts[i].ll /\ UNCHANGED recVars
Destroy(i) == i \in DOMAIN utts /\ utts' = Without(utts, i) /\ UNCHANGED <<recs, auds>>
=============================================================================
