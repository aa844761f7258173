------------------------------ MODULE ModelDir ------------------------------
(* Which directories are a model: what ce_stt_init accepts. A directory is a sequence of files              *)
(* [n, s, b]: name, state ("good": as written by the model's author, "missing", "dir", "cut": the graph     *)
(* truncated, "bytes": the content is b). Nothing else exists. The configuration is the file of name `conf`. *)
(* ce_stt_init returns a recognizer exactly when the verdict is "accept" ("any": left open).                 *)
EXTENDS Text
MF == INSTANCE ModelFile

Str(s) == s
(* keys, as byte codes *)
K_fst == <<102, 115, 116>>
K_nnet == <<110, 110, 101, 116>>
K_prior == <<112, 114, 105, 111, 114>>
K_tid2pdf == <<116, 105, 100, 50, 112, 100, 102>>
K_symbols == <<115, 121, 109, 98, 111, 108, 95, 116, 97, 98, 108, 101>>
K_left == <<108, 101, 102, 116, 95, 99, 111, 110, 116, 101, 120, 116>>
K_right == <<114, 105, 103, 104, 116, 95, 99, 111, 110, 116, 101, 120, 116>>
K_chunk == <<99, 104, 117, 110, 107, 95, 115, 105, 122, 101>>
K_pdfs == <<110, 117, 109, 95, 112, 100, 102, 115>>
K_large == <<108, 97, 114, 103, 101, 95, 108, 109>>
K_orig == <<111, 114, 105, 103, 105, 110, 97, 108, 95, 108, 109>>

FileKeys == {K_fst, K_nnet, K_prior, K_tid2pdf, K_symbols}
IntKeys == {K_left, K_right, K_chunk, K_pdfs}
AtLeast(k) == IF k = K_chunk THEN 1 ELSE 0
KindOf(k) == IF k = K_orig THEN "vecf" ELSE IF k = K_prior THEN "prior" ELSE IF k = K_tid2pdf THEN "veci" ELSE IF k = K_nnet THEN "net"
             ELSE IF k = K_large THEN "lm" ELSE IF k = K_fst THEN "graph" ELSE "symbols"

Find(D, name) == LET S == {i \in 1 .. Len(D) : D[i].n = name}
                 IN IF S = {} THEN [n |-> name, s |-> "missing", b |-> <<>>] ELSE D[CHOOSE i \in S : TRUE]
(* a single precision number as its four bytes *)
Zero32(v) == v[1] = 0 /\ v[2] = 0 /\ v[3] = 0 /\ v[4] % 128 = 0
Neg32(v) == v[4] >= 128
Special32(v) == v[4] % 128 = 127 /\ v[3] >= 128            \* infinite or undefined
Inf32(v) == Special32(v) /\ v[3] = 128 /\ v[2] = 0 /\ v[1] = 0
(* probabilities: negative and undefined ones are refused, zero and infinity are left open *)
PriorVerdict(val) ==
  IF \E i \in 1 .. Len(val) : (Neg32(val[i]) /\ ~Zero32(val[i])) \/ (Special32(val[i]) /\ ~Inf32(val[i])) THEN "refuse"
  ELSE IF \E i \in 1 .. Len(val) : Zero32(val[i]) \/ Inf32(val[i]) THEN "any" ELSE "accept"
(* a file as a file of a kind *)
FileVerdict(f, kind) ==
  IF f.s \in {"missing", "dir", "cut"} THEN "refuse"
  ELSE IF f.s = "good" THEN "accept"
  ELSE IF kind = "symbols" THEN SymVerdict(SymParsed(f.b))
  ELSE IF kind = "graph" THEN "any"
  ELSE LET r == MF!Read(IF kind = "lm" THEN "fst" ELSE IF kind = "prior" THEN "vecf" ELSE kind, f.b, 1)
       IN IF ~r.ok THEN "refuse"
          ELSE IF r.next # Len(f.b) + 1 THEN "any"                 \* something follows
          ELSE IF kind \in {"lm", "net"} THEN "any"                \* well formed, but other numbers
          ELSE IF kind = "prior" THEN PriorVerdict(r.val)
          ELSE "accept"
(* a good file is only good for its own key *)
Own(k) == CASE k = K_fst -> <<72, 67, 76, 71, 46, 102, 115, 116>> [] k = K_nnet -> <<110, 110, 101, 116>>
            [] k = K_prior -> <<112, 114, 105, 111, 114>> [] k = K_tid2pdf -> <<116, 105, 100, 50, 112, 100, 102>>
            [] k = K_symbols -> <<119, 111, 114, 100, 115, 46, 116, 120, 116>> [] k = K_large -> <<71, 46, 102, 115, 116>>
            [] k = K_orig -> <<111, 114, 105, 103>>
            [] OTHER -> <<>>
(* the same vector format serves two keys; anything else under a foreign key is refused *)
Foreign(k, base, f) == IF f.s = "good" THEN IF k \in {K_prior, K_orig, K_tid2pdf} /\ base \in {Own(K_prior), Own(K_orig), Own(K_tid2pdf)} THEN "any" ELSE "refuse"
                       ELSE FileVerdict(f, KindOf(k))
KeyVerdict(D, P, conf, dir, k) ==
  IF ~Defined(P, k) THEN "refuse"
  ELSE LET path == PathOf(conf, Value(P, k))
           base == IF Len(path) > Len(dir) /\ SubSeq(path, 1, Len(dir)) = dir THEN SubSeq(path, Len(dir) + 1, Len(path)) ELSE <<>>
       IN IF base = <<>> \/ \E i \in 1 .. Len(base) : base[i] = SLASH THEN "any"     \* elsewhere
          ELSE IF base = Own(k) THEN FileVerdict(Find(D, base), KindOf(k)) ELSE Foreign(k, base, Find(D, base))
IntVerdict(P, k) ==
  IF ~Defined(P, k) THEN "refuse"
  ELSE LET x == IntOf(Value(P, k))
       IN IF x.k = "bad" THEN "refuse" ELSE IF x.k = "open" THEN "any" ELSE IF k = K_pdfs \/ x.v >= AtLeast(k) THEN "accept" ELSE "refuse"
(* problems: what is wrong, for the error text *)
Verdicts(D, dir, confname) ==
  LET c == Find(D, confname)
      conf == dir \o confname
  IN IF c.s \in {"missing", "dir"} THEN [all |-> {"refuse"}, bad |-> {{conf}}, P |-> <<>>]
     ELSE LET P == ConfParsed(c.b)
              cv == ConfVerdict(P)
          IN IF cv # "accept" THEN [all |-> {cv}, bad |-> {{conf}}, P |-> P]
             ELSE LET files == FileKeys \cup (IF Defined(P, K_large) THEN {K_large, K_orig} ELSE {})
                      kv == [k \in files |-> KeyVerdict(D, P, conf, dir, k)]
                      iv == [k \in IntKeys |-> IntVerdict(P, k)]
                  IN [all |-> {kv[k] : k \in files} \cup {iv[k] : k \in IntKeys},
                      \* each problem with the texts that name it (none when no particular text is promised)
                      bad |-> {IF ~Defined(P, k) THEN {k, conf}
                               ELSE IF Find(D, SubSeq(PathOf(conf, Value(P, k)), Len(dir) + 1, Len(PathOf(conf, Value(P, k))))).s = "missing"
                                    THEN {PathOf(conf, Value(P, k))} ELSE {} : k \in {x \in files : kv[x] = "refuse"}}
                              \cup {{k, conf} : k \in {x \in IntKeys : iv[x] = "refuse"}},
                      P |-> P]
Verdict(V) == IF "refuse" \in V.all THEN "refuse" ELSE IF "any" \in V.all \/ "open" \in V.all THEN "any" ELSE "accept"
Contains(s, t) == \E i \in 0 .. Len(s) - Len(t) : SubSeq(s, i + 1, i + Len(t)) = t
(* an error text names t; of a very long text only the beginning is promised *)
Names(err, t) == Contains(err, IF Len(t) <= 400 THEN t ELSE SubSeq(t, 1, 200))
(* init of directory D returned a recognizer (ok) or an error text *)
InitOk(D, dir, confname, ok, err) ==
  LET V == Verdicts(D, dir, confname)
  IN /\ Verdict(V) = "accept" => ok
     /\ Verdict(V) = "refuse" => ~ok
     /\ ~ok => err # <<>>
     /\ ~ok /\ V.bad # {} /\ ("any" \notin V.all /\ "open" \notin V.all) => \E b \in V.bad : \A t \in b : Names(err, t)
=============================================================================
