----------------------------- MODULE SharedImpl -----------------------------
(* What the calls of different threads touch. A recognizer is only read; everything a call writes belongs   *)
(* to its utterance, except the text of the last error, which failing calls write. Each call is a sequence    *)
(* of steps (read the model, read and write the own state in parts, publish the result); between any two     *)
(* steps other threads may run, utterances may begin, fail or be destroyed. Whatever the schedule, an         *)
(* utterance's results are those of its own calls alone (Independent), no two threads touch an object at     *)
(* the same time unless both only read it (NoRace), and nothing is touched after its end (Alive).            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Utts, MaxCalls, Data,
          Scratch      \* where the intermediate result of a call is kept: "own" or "shared"
VARIABLES model,   \* the recognizer's content (never changes)
          st,      \* utterance -> own state: what it has decoded so far
          tmp,     \* intermediate results: own -> per utterance, shared -> one
          pc,      \* utterance -> step of its thread
          arg,     \* utterance -> argument of the call in progress
          hist,    \* utterance -> arguments of its calls (ghost)
          out      \* utterance -> last result
vars == <<model, st, tmp, pc, arg, hist, out>>

Key(u) == IF Scratch = "own" THEN u ELSE "all"
Slots == IF Scratch = "own" THEN Utts ELSE {"all"}
F(m, x) == 10 * x + m                     \* features of a chunk under a model
RECURSIVE Alone(_, _)
(* what a sequence of calls gives without anybody else *)
Alone(m, h) == IF h = <<>> THEN 0 ELSE 3 * Alone(m, SubSeq(h, 1, Len(h) - 1)) + F(m, h[Len(h)])

Init == model = 1 /\ st = [u \in Utts |-> 0] /\ tmp = [k \in Slots |-> 0] /\ pc = [u \in Utts |-> "none"]
        /\ arg = [u \in Utts |-> 0] /\ hist = [u \in Utts |-> <<>>] /\ out = [u \in Utts |-> 0]
Begin(u) == pc[u] = "none" /\ pc' = [pc EXCEPT ![u] = "idle"] /\ st' = [st EXCEPT ![u] = 0] /\ out' = [out EXCEPT ![u] = 0]
            /\ hist' = [hist EXCEPT ![u] = <<>>] /\ UNCHANGED <<model, tmp, arg>>
Call(u) == pc[u] = "idle" /\ Len(hist[u]) < MaxCalls
           /\ \E x \in Data : arg' = [arg EXCEPT ![u] = x] /\ hist' = [hist EXCEPT ![u] = Append(@, x)]
           /\ pc' = [pc EXCEPT ![u] = "features"] /\ UNCHANGED <<model, st, tmp, out>>
Features(u) == pc[u] = "features" /\ tmp' = [tmp EXCEPT ![Key(u)] = F(model, arg[u])] /\ pc' = [pc EXCEPT ![u] = "search"]
               /\ UNCHANGED <<model, st, arg, hist, out>>
Search(u) == pc[u] = "search" /\ st' = [st EXCEPT ![u] = 3 * @ + tmp[Key(u)]] /\ pc' = [pc EXCEPT ![u] = "publish"]
             /\ UNCHANGED <<model, tmp, arg, hist, out>>
Publish(u) == pc[u] = "publish" /\ out' = [out EXCEPT ![u] = st[u]] /\ pc' = [pc EXCEPT ![u] = "idle"]
              /\ UNCHANGED <<model, st, tmp, arg, hist>>
Fail(u) == pc[u] = "idle" /\ UNCHANGED vars                \* a refused call changes nothing
Destroy(u) == pc[u] = "idle" /\ pc' = [pc EXCEPT ![u] = "none"] /\ UNCHANGED <<model, st, tmp, arg, hist, out>>
Next == \E u \in Utts : Begin(u) \/ Call(u) \/ Features(u) \/ Search(u) \/ Publish(u) \/ Fail(u) \/ Destroy(u)
Spec == Init /\ [][Next]_vars

(* objects touched by the step a thread is about to do *)
Reads(u) == IF pc[u] = "features" THEN {<<"model", 0>>} ELSE IF pc[u] = "search" THEN {<<"tmp", Key(u)>>} ELSE {}
Writes(u) == IF pc[u] = "features" THEN {<<"tmp", Key(u)>>} ELSE IF pc[u] = "search" THEN {<<"st", u>>}
             ELSE IF pc[u] = "publish" THEN {<<"out", u>>} ELSE {}
NoRace == \A u, v \in Utts : u # v => Writes(u) \cap (Writes(v) \cup Reads(v)) = {}
Independent == \A u \in Utts : pc[u] = "idle" => out[u] = Alone(model, hist[u])
=============================================================================
