------------------------------- MODULE CliImpl -------------------------------
(* How the tool works: it reads the list line by line, decodes the audio of a line in blocks of Block bytes  *)
(* and prints a row before it reads the next line; the first problem prints a message and ends it. Checked   *)
(* for every list of up to MaxLines lines of several kinds, every model and argument fault.                  *)
EXTENDS Cli, FiniteSets, TLC
CONSTANTS MaxLines, Block
VARIABLES args, list, pos, left, out, code
vars == <<args, list, pos, left, out, code>>

Hdr(ok) == <<82, 73, 70, 70, 0, 0, 0, 0, 87, 65, 86, 69, 102, 109, 116, 32, 16, 0, 0, 0, 1, 0, 1, 0, 128, 62, 0, 0,
             IF ok THEN 0 ELSE 1, 125, 0, 0, 2, 0, 16, 0, 100, 97, 116, 97, 0, 0, 0, 0>>
M == <<109>>
\* audio files: name, header, number of bytes; the hypothesis repeats the name once per 3 bytes
Wavs == <<[n |-> <<97>>, hdr |-> Hdr(TRUE), size |-> 4], [n |-> <<98>>, hdr |-> Hdr(TRUE), size |-> 0], [n |-> <<99>>, hdr |-> Hdr(FALSE), size |-> 3],
          [n |-> <<97, 46, 119, 97, 118>>, hdr |-> Hdr(TRUE), size |-> 7], [n |-> <<98, 46, 119, 97, 118>>, hdr |-> Hdr(FALSE), size |-> 7]>>
Hyp(k) == [i \in 1 .. (k \div 3) |-> 120]
World == [models |-> {M}, wavs |-> [i \in 1 .. Len(Wavs) |-> [n |-> Wavs[i].n, hdr |-> Wavs[i].hdr, text |-> Hyp(Wavs[i].size)]],
          lists |-> <<[n |-> <<108, 46, 115, 99>>, b |-> list]>>]
Kinds == {<<117, 32, 97>>, <<118, 32, 98>>, <<117, 32, 99>>, <<117, 32, 100>>, <<117>>, <<>>, <<117, 32, 97, 32, 98>>, <<117, 32, 32, 97>>}
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o <<LF>> \o Concat(Tail(s))
ListsOf == {Concat(s) \o e : s \in UNION {[1 .. n -> Kinds] : n \in 0 .. MaxLines}, e \in {<<>>, <<LF>>}}
Argss == {<<M, <<108, 46, 115, 99>>>>, <<M, Wavs[4].n>>, <<M, Wavs[5].n>>, <<M, <<122, 46, 119, 97, 118>>>>, <<M, <<122, 122, 46, 115>>>>, <<M, <<97>>>>, <<M>>, <<>>,
          <<<<120>>, <<108, 46, 115, 99>>>>, <<M, M, M>>}

Init == /\ args \in Argss /\ list \in (IF args = <<M, <<108, 46, 115, 99>>>> THEN ListsOf ELSE {<<>>})
        /\ pos = 0 /\ left = 0 - 1 /\ out = <<>> /\ code = 0 - 1
Msg == <<101, LF>>
Die == out' = out \o Msg /\ code' = 1 /\ UNCHANGED <<args, list, pos, left>>
End0 == code' = 0 /\ UNCHANGED <<args, list, pos, left, out>>
Name(p) == {i \in 1 .. Len(Wavs) : Wavs[i].n = p}
GoodWav(p) == Name(p) # {} /\ Wavs[The1(Name(p))].hdr = Hdr(TRUE)
SizeOf(p) == Wavs[The1(Name(p))].size
L == Lines(list)
IsWav == Len(args) = 2 /\ EndsWith(args[2], WAV)
Path == IF IsWav THEN args[2] ELSE ListLine(L[pos]).file
Next ==
  /\ code = 0 - 1
  /\ IF Len(args) # 2 THEN Die
     ELSE IF Len(args[2]) < 4 \/ args[1] # M THEN Die
     ELSE IF left >= 0 THEN                                        \* decoding
          IF left > 0 THEN left' = (IF left > Block THEN left - Block ELSE 0) /\ UNCHANGED <<args, list, pos, out, code>>
          ELSE /\ out' = out \o (IF IsWav THEN Hyp(SizeOf(Path)) \o <<LF>> ELSE ListLine(L[pos]).name \o <<SP>> \o Hyp(SizeOf(Path)) \o <<LF>>)
               /\ left' = 0 - 1 /\ code' = (IF IsWav THEN 0 ELSE code) /\ UNCHANGED <<args, list, pos>>
     ELSE IF IsWav THEN IF GoodWav(Path) THEN left' = SizeOf(Path) /\ UNCHANGED <<args, list, pos, out, code>> ELSE Die
     ELSE IF args[2] # <<108, 46, 115, 99>> THEN Die
     ELSE IF pos = Len(L) THEN End0
     ELSE LET x == ListLine(L[pos + 1])
          IN IF x.k # "ok" THEN Die
             ELSE IF GoodWav(x.file) THEN pos' = pos + 1 /\ left' = SizeOf(x.file) /\ UNCHANGED <<args, list, out, code>>
             ELSE Die
Spec == Init /\ [][Next]_vars
Right == code >= 0 => OutputOk(World, args, out, FALSE, FALSE, code)
(* rows are printed as they are finished *)
Order == LET x == Expected(World, args) IN Prefix(out, x.out) \/ (Prefix(x.out, out) /\ code > 0)
=============================================================================
