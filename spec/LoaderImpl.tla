----------------------------- MODULE LoaderImpl -----------------------------
(* How ce_stt_init works: the parts are read one after the other, each into an object it owns; the first     *)
(* problem ends it, its text becomes the last error and everything allocated so far is returned. Checked    *)
(* for every directory with at most MaxFaults faults: the outcome is the one of ModelDir, nothing stays      *)
(* allocated after a failure or after ce_stt_destroy.                                                       *)
EXTENDS ModelDir, FiniteSets, TLC
CONSTANT MaxFaults
VARIABLES faults,    \* part -> fault
          lmOn,      \* the configuration names a large LM
          pc,        \* number of parts read
          heap,      \* allocated objects
          res        \* "busy", "ok", "null", "gone"
vars == <<faults, lmOn, pc, heap, res>>

Order == <<K_fst, K_nnet, K_prior, K_left, K_right, K_chunk, K_pdfs, K_tid2pdf, K_symbols, K_orig, K_large>>
Parts == {Order[i] : i \in 1 .. Len(Order)}
FileFaults == {"nokey", "missing", "dir", "bytes"}
IntFaults == {"nokey", "text", "negative"}
FaultsOf(k) == IF k \in IntKeys THEN IntFaults ELSE IF k = K_large THEN FileFaults \ {"nokey"} ELSE FileFaults
Dir == <<47, 109, 47>>                      \* "/m/"
Conf == <<99>>                              \* "c"
(* the directory *)
Line(k, v) == k \o <<EQ>> \o v \o <<LF>>
F(k) == IF k \in DOMAIN faults THEN faults[k] ELSE "none"
IntText(k) == IF F(k) = "text" THEN <<120>> ELSE IF F(k) = "negative" THEN <<45, 49>> ELSE <<49>>
RECURSIVE ConfText(_)
ConfText(i) == IF i > Len(Order) THEN <<>>
               ELSE LET k == Order[i] IN
                    (IF F(k) = "nokey" \/ (k \in {K_orig, K_large} /\ ~lmOn) THEN <<>>
                     ELSE Line(k, IF k \in IntKeys THEN IntText(k) ELSE Own(k))) \o ConfText(i + 1)
Files == [i \in 1 .. 8 |-> IF i = 8 THEN [n |-> Conf, s |-> "bytes", b |-> ConfText(1)]
                           ELSE LET k == <<K_fst, K_nnet, K_prior, K_tid2pdf, K_symbols, K_orig, K_large>>[i]
                                IN [n |-> Own(k), s |-> IF F(k) \in {"missing", "dir", "bytes"} THEN IF k = K_fst /\ F(k) = "bytes" THEN "cut" ELSE F(k) ELSE "good",
                                    b |-> IF F(k) = "bytes" THEN <<1>> ELSE <<>>]]
Wrong(k) == F(k) # "none" /\ ~(k = K_pdfs /\ F(k) = "negative")
Text_(k) == IF F(k) = "missing" THEN Dir \o Own(k) ELSE k \o <<32>> \o Dir \o Conf

Init == /\ lmOn \in BOOLEAN
        /\ \E S \in SUBSET (IF lmOn THEN Parts ELSE Parts \ {K_orig, K_large}) :
             Cardinality(S) <= MaxFaults /\ faults \in {f \in [S -> FileFaults \cup IntFaults] : \A k \in S : f[k] \in FaultsOf(k)}
        /\ pc = 0 /\ heap = {<<114>>} /\ res = "busy"
Skip(k) == k \in {K_orig, K_large} /\ ~lmOn
(* objects: the acoustic model exists before its files are read, like the symbol table *)
Owner(k) == IF k \in {K_nnet, K_prior, K_tid2pdf} \cup IntKeys THEN <<97, 109>> ELSE k
Next == \/ /\ res = "busy" /\ pc < Len(Order)
           /\ LET k == Order[pc + 1]
              IN IF Skip(k) THEN pc' = pc + 1 /\ UNCHANGED <<heap, res>>
                 ELSE IF Wrong(k) THEN /\ res' = "null" /\ heap' = {} /\ UNCHANGED pc
                 ELSE pc' = pc + 1 /\ heap' = heap \cup {Owner(k)} /\ UNCHANGED res
           /\ UNCHANGED <<faults, lmOn>>
        \/ /\ res = "busy" /\ pc = Len(Order) /\ res' = "ok" /\ UNCHANGED <<faults, lmOn, pc, heap>>
        \/ /\ res = "ok" /\ res' = "gone" /\ heap' = {} /\ UNCHANGED <<faults, lmOn, pc>>
Spec == Init /\ [][Next]_vars
Outcome == res \in {"ok", "null"} => InitOk(Files, Dir, Conf, res = "ok", IF res = "ok" THEN <<>> ELSE Text_(Order[pc + 1]))
Right == res \in {"ok", "null"} => Verdict(Verdicts(Files, Dir, Conf)) = (IF res = "ok" THEN "accept" ELSE "refuse")
NothingLeft == res \in {"null", "gone"} => heap = {}
=============================================================================
