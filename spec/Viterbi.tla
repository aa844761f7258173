------------------------------- MODULE Viterbi -------------------------------
(* The decoder (decoder.cc): best path search through a weighted graph, frame by frame, optionally    *)
(* composed on the fly with a backoff LM minus a unigram LM. Costs are integers (the harness uses      *)
(* units of 1/64, exact in the engine's floats).                                                       *)
(*   g   = [start, arcs, fin]: arcs[s+1] = sequence of <<ilabel, next, weight, olabel>>, ilabel 0 =     *)
(*         epsilon, otherwise a transition-id; fin[s+1] = final cost or Inf                             *)
(*   map[tid+1] = pdf;  am2 = twice the acoustic scale                                                  *)
(*   lm  = [on, lm, small, bos, eos] (BackoffLm)                                                         *)
(* A search state is <<graph state, LM state>>.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES g, map, am2, lm,
          tok,      \* exact tokens: search state -> [c, w]: cost of the best path to it and the set of
                    \* word sequences of all paths with that cost
          sure,     \* tokens of the paths which stay within the beam of the best token at every frame
          frames,   \* the frames consumed (history)
          dead,     \* a frame left nothing
          eos
vitVars == <<g, map, am2, lm, tok, sure, frames, dead, eos>>
CONSTANTS Beam,     \* 16.0
          MaxActive \* 30000: with more tokens than that only the best one is sure to survive
INSTANCE ViterbiCore

VInit == /\ g = [start |-> 0, arcs |-> << >>, fin |-> << >>] /\ map = << >> /\ am2 = 2
         /\ lm = [on |-> FALSE, lm |-> g, small |-> << >>, bos |-> 0, eos |-> 0]
         /\ tok = NoTok /\ sure = NoTok /\ frames = << >> /\ dead = FALSE /\ eos = FALSE

Load(g2, map2, a2, lm2) ==
  /\ g' = g2 /\ map' = map2 /\ am2' = a2 /\ lm' = lm2
  /\ tok' = NoTok /\ sure' = NoTok /\ frames' = << >> /\ dead' = FALSE /\ eos' = FALSE

Initialize ==
  /\ tok' = StartTok /\ sure' = StartTok /\ frames' = << >> /\ dead' = FALSE /\ eos' = FALSE
  /\ UNCHANGED <<g, map, am2, lm>>

(* n: upper bound of the number of active tokens *)
Frame(f, ok, n) ==
  LET T == IF dead THEN NoTok ELSE ExactStep(f)
      S == IF DOMAIN T = {} THEN NoTok ELSE SureStep(f, n)
  IN /\ (ok => DOMAIN T # {})               \* something survived
     /\ (~ok => DOMAIN S = {})              \* nothing survived for sure
     /\ tok' = IF ok THEN T ELSE NoTok
     /\ sure' = IF ok THEN S ELSE NoTok
     /\ dead' = ~ok
     /\ frames' = IF ok THEN Append(frames, f) ELSE frames
     /\ UNCHANGED <<g, map, am2, lm, eos>>

(* r times the frames of the block fs, all of them survived *)
Block(fs, r) == [i \in 1 .. r * Len(fs) |-> fs[((i - 1) % Len(fs)) + 1]]
FrameLoop(fs, r, n) ==
  LET all == Block(fs, r)
      step(p, f) == LET T == ExactOn(p[1], f)
                    IN <<T, IF DOMAIN T = {} THEN NoTok ELSE SureOn(p[1], p[2], f, n)>>
      end == FoldLeft(step, <<tok, sure>>, all)
  IN /\ ~dead
     /\ DOMAIN end[1] # {}
     /\ tok' = end[1] /\ sure' = end[2]
     /\ frames' = frames \o all
     /\ UNCHANGED <<g, map, am2, lm, dead, eos>>

EndOfStream == eos' = TRUE /\ UNCHANGED <<g, map, am2, lm, tok, sure, frames, dead>>

(* Without pruning the report is exactly the optimum. *)
SureIsReal == \A x \in DOMAIN sure : x \in DOMAIN tok /\ sure[x].c >= tok[x].c
NoTokensWhenDead == dead => tok = NoTok
VitInv == SureIsReal /\ NoTokensWhenDead
=============================================================================
