---------------------------------- MODULE Cli ----------------------------------
(* The command line tool: `tool MODEL INPUT`. What it prints and how it ends, given the files that exist.   *)
(*   W = [models, wavs, lists]: paths of loadable configurations; audio files [n, hdr, text] with the bytes *)
(*   of the header and the hypothesis the C API gives for the audio; list files [n, b].                      *)
EXTENDS Text
WH == INSTANCE WavHeader WITH w <- 0, buf <- <<>>, res <- 0, fed <- <<>>, got <- <<>>

Named(S, p) == {i \in 1 .. Len(S) : S[i].n = p}
The1(X) == CHOOSE x \in X : TRUE
(* decoding the file at a path: "ok" with its hypothesis, "fail", "open" *)
Audio(W, p) ==
  LET S == Named(W.wavs, p)
  IN IF S = {} THEN IF Named(W.lists, p) = {} THEN [k |-> "fail", text |-> <<>>]        \* no such file
                    ELSE [k |-> IF Len(W.lists[The1(Named(W.lists, p))].b) >= 4 /\ SubSeq(W.lists[The1(Named(W.lists, p))].b, 1, 4) = WH!RIFF THEN "open" ELSE "fail", text |-> <<>>]
     ELSE LET f == W.wavs[The1(S)]
              v == WH!Verdict(f.hdr)
          IN IF v = "refuse" THEN [k |-> "fail", text |-> <<>>]
             ELSE IF WH!Supported16k(f.hdr) THEN [k |-> IF v = "accept" THEN "ok" ELSE "open", text |-> f.text]
             ELSE [k |-> "fail", text |-> <<>>]
(* one line of a list *)
ListLine(t) ==
  LET S == Occurs(t, SP) IN
  IF S = {} THEN [k |-> "bad"]                                       \* nothing or a single field
  ELSE LET p == FirstOf(S)
           a == SubSeq(t, 1, p - 1)
           r == SubSeq(t, p + 1, Len(t))
       IN IF a = <<>> THEN [k |-> "open"]
          ELSE IF r = <<>> THEN [k |-> "bad"]
          ELSE IF Occurs(r, SP) = {} THEN [k |-> "ok", name |-> a, file |-> r]
          ELSE IF Occurs(r, SP) = {Len(r)} THEN [k |-> "open"]       \* one trailing blank
          ELSE [k |-> "bad"]
Row(name, text) == name \o <<SP>> \o text \o <<LF>>
RECURSIVE Run(_, _, _)
(* the output of lines i .. of a list, and how it ends: "done", "fail", "open" *)
Run(W, L, i) ==
  IF i > Len(L) THEN [out |-> <<>>, end |-> "done"]
  ELSE LET x == ListLine(L[i]) IN
       IF x.k = "open" THEN [out |-> <<>>, end |-> "open"]
       ELSE IF x.k = "bad" THEN [out |-> <<>>, end |-> "fail"]
       ELSE LET a == Audio(W, x.file) IN
            IF a.k # "ok" THEN [out |-> <<>>, end |-> a.k]
            ELSE LET r == Run(W, L, i + 1) IN [out |-> Row(x.name, a.text) \o r.out, end |-> r.end]
WAV == <<46, 119, 97, 118>>
EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
Expected(W, args) ==
  IF Len(args) # 2 THEN [out |-> <<>>, end |-> "fail"]
  ELSE IF Len(args[2]) < 4 \/ args[1] \notin W.models THEN [out |-> <<>>, end |-> "fail"]
  ELSE IF EndsWith(args[2], WAV)
       THEN LET a == Audio(W, args[2]) IN IF a.k = "ok" THEN [out |-> a.text \o <<LF>>, end |-> "done"] ELSE [out |-> <<>>, end |-> a.k]
  ELSE LET S == Named(W.lists, args[2])
       IN IF S = {} THEN [out |-> <<>>, end |-> IF Named(W.wavs, args[2]) = {} THEN "fail" ELSE "open"]
          ELSE Run(W, Lines(W.lists[The1(S)].b), 1)
Prefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
(* out: standard output, err: something on standard error, crash: ended by a signal, code: exit status *)
OutputOk(W, args, out, err, crash, code) ==
  LET x == Expected(W, args)
  IN /\ ~crash
     /\ x.end = "done" => out = x.out /\ code = 0
     /\ x.end = "fail" => Prefix(x.out, out) /\ code # 0 /\ (err \/ Len(out) > Len(x.out))
     /\ x.end = "open" => Prefix(x.out, out)
=============================================================================
