------------------------------ MODULE MCConfig ------------------------------
(* A one-pass automaton that reads a configuration byte by byte (the way a streaming parser would)     *)
(* agrees with the declarative meaning of the format in Text.tla after every byte.                     *)
EXTENDS Text, TLC
CONSTANTS MaxLen, Codes
VARIABLES text,
          st,      \* "start" | "comment" | "key" | "val" | "bad"
          key, val, pendk, pendv,     \* collected so far, blanks that may turn out to be inner ones
          tab, failed, open
vars == <<text, st, key, val, pendk, pendv, tab, failed, open>>
Init == text = <<>> /\ st = "start" /\ key = <<>> /\ val = <<>> /\ pendk = <<>> /\ pendv = <<>>
        /\ tab = <<>> /\ failed = FALSE /\ open = FALSE
Low(c) == IF c \in 65 .. 90 THEN c + 32 ELSE c
(* what the line read so far means if it ended here *)
LineBad == st = "key" \/ st = "bad" \/ (st = "val" /\ val = <<>>)
LineOpen == st = "val" /\ val # <<>> /\ key = <<>>
LineDef == st = "val" /\ val # <<>> /\ key # <<>>
TabAfter == IF LineDef THEN Append(tab, <<key, val>>) ELSE tab
Put(c) ==
  /\ text' = Append(text, c)
  /\ IF c = LF
     THEN /\ failed' = (failed \/ LineBad) /\ open' = (open \/ LineOpen) /\ tab' = TabAfter
          /\ st' = "start" /\ key' = <<>> /\ val' = <<>> /\ pendk' = <<>> /\ pendv' = <<>>
     ELSE /\ UNCHANGED <<tab, failed, open>>
          /\ CASE st = "start" /\ Blank(c) -> UNCHANGED <<st, key, val, pendk, pendv>>
               [] st = "start" /\ c = HASH -> st' = "comment" /\ UNCHANGED <<key, val, pendk, pendv>>
               [] st = "start" /\ c = EQ -> st' = "val" /\ UNCHANGED <<key, val, pendk, pendv>>
               [] st = "start" /\ ~Blank(c) /\ c # HASH /\ c # EQ ->
                    st' = "key" /\ key' = <<Low(c)>> /\ UNCHANGED <<val, pendk, pendv>>
               [] st \in {"comment", "bad"} -> UNCHANGED <<st, key, val, pendk, pendv>>
               [] st = "key" /\ c = EQ -> st' = "val" /\ pendk' = <<>> /\ UNCHANGED <<key, val, pendv>>
               [] st = "key" /\ Blank(c) -> pendk' = Append(pendk, c) /\ UNCHANGED <<st, key, val, pendv>>
               [] st = "key" /\ c # EQ /\ ~Blank(c) -> key' = key \o pendk \o <<Low(c)>> /\ pendk' = <<>> /\ UNCHANGED <<st, val, pendv>>
               [] st = "val" /\ c = EQ -> st' = "bad" /\ UNCHANGED <<key, val, pendk, pendv>>
               [] st = "val" /\ Blank(c) -> pendv' = (IF val = <<>> THEN <<>> ELSE Append(pendv, c)) /\ UNCHANGED <<st, key, val, pendk>>
               [] st = "val" /\ c # EQ /\ ~Blank(c) -> val' = val \o pendv \o <<c>> /\ pendv' = <<>> /\ UNCHANGED <<st, key, pendk>>
Next == Len(text) < MaxLen /\ \E c \in Codes : Put(c)
Spec == Init /\ [][Next]_vars
Verdict == IF failed \/ LineBad THEN "refuse" ELSE IF open \/ LineOpen THEN "open" ELSE "accept"
P == ConfParsed(text)
Same == Verdict = ConfVerdict(P)
Keys == {TabAfter[i][1] : i \in 1 .. Len(TabAfter)}
Probe == {<<97>>, <<65>>, <<97, 97>>, <<97, 32, 97>>, <<35>>, <<98>>}
Meaning == Verdict = "accept" =>
  /\ \A k \in Keys : Defined(P, k) /\ \E i \in 1 .. Len(TabAfter) :
       /\ TabAfter[i] = <<k, Value(P, k)>>
       /\ \A j \in i + 1 .. Len(TabAfter) : TabAfter[j][1] # k
  /\ \A k \in Probe : Defined(P, k) <=> Lower(k) \in Keys
(* adding blanks around, comments, or a missing final newline change nothing *)
Robust == Verdict = "accept" => \A k \in Keys :
  \A t \in {<<32>> \o text, text \o <<32>>, text \o <<LF>>, text \o <<CR, LF>>, text \o <<LF, HASH, EQ, EQ, LF>>, <<LF>> \o text} :
     (Len(text) > 0) => LET Q == ConfParsed(t) IN ConfVerdict(Q) = "accept" /\ Defined(Q, k) /\ Value(Q, k) = Value(P, k)
=============================================================================
