------------------------------- MODULE Convert -------------------------------
(* The model conversion tools (tool/*.py): what the binary output of each tool means, as a function of   *)
(* the text it was given. Texts and files are byte sequences. A tool may refuse (exit status # 0) only    *)
(* ill-formed inputs; "open" inputs are not constrained.                                                 *)
EXTENDS Text, ModelFile, BigNat
LOCAL INSTANCE SequencesExt

RECURSIVE FieldsFrom(_, _, _)
FieldsFrom(s, cur, acc) ==
  IF s = <<>> THEN IF cur = <<>> THEN acc ELSE Append(acc, cur)
  ELSE IF Blank(Head(s)) THEN FieldsFrom(Tail(s), <<>>, IF cur = <<>> THEN acc ELSE Append(acc, cur))
  ELSE FieldsFrom(Tail(s), Append(cur, Head(s)), acc)
Fields(s) == FieldsFrom(s, <<>>, <<>>)
IsNat(s) == IntOf(s).k = "int" /\ IntOf(s).v >= 0
NatVal(s) == IntOf(s).v
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

(* ------------------------------------------------ convert_trans: transition id -> pdf *)
TransFields(b) == LET L == Lines(b) IN [i \in 1 .. Len(L) |-> Fields(L[i])]
TransOk(F) == /\ Len(F) >= 2 /\ Len(F[1]) = 1 /\ Len(F[2]) = 1 /\ IsNat(F[1][1]) /\ IsNat(F[2][1])
              /\ \A i \in 3 .. Len(F) : /\ Len(F[i]) = 2 /\ IsNat(F[i][1]) /\ IsNat(F[i][2])
                                        /\ NatVal(F[i][1]) <= NatVal(F[2][1])
\* a line that cannot be a pair of numbers
TransBad(F) == Len(F) < 2 \/ \E i \in 3 .. Len(F) : Len(F[i]) # 2
TransMap(F) == [t \in 1 .. NatVal(F[2][1]) + 1 |->
                 LET S == {i \in 3 .. Len(F) : NatVal(F[i][1]) = t - 1}
                 IN IF S = {} THEN 0 ELSE NatVal(F[MaxOf(S)][2])]
Whole(kind, b) == LET r == Read(kind, b, 1) IN r.ok /\ r.next = Len(b) + 1
TransFile(F, b) == /\ Whole("veci", b)
                   /\ LET v == Read("veci", b, 1).val IN [i \in 1 .. Len(v) |-> I32(v[i], 1)] = TransMap(F)

(* ------------------------------------------------ ARPA language models *)
DATA == <<92, 100, 97, 116, 97, 92>>
UNI == <<92, 49, 45, 103, 114, 97, 109, 115, 58>>
END == <<92, 101, 110, 100, 92>>
NGRAM1 == <<110, 103, 114, 97, 109, 32, 49>>
BACKSL == 92
Arpa0 == [st |-> "begin", counts |-> <<>>, uni |-> <<>>, bad |-> FALSE]
ArpaLine(s, raw) ==
  LET t == Trim(raw)
      f == Fields(t)
  IN IF s.bad THEN s
     ELSE CASE s.st = "begin" -> IF t = DATA THEN [s EXCEPT !.st = "data"] ELSE IF t = <<>> THEN s ELSE [s EXCEPT !.bad = TRUE]
            [] s.st = "data" -> IF t = <<>> THEN s
                                ELSE IF Count(t, EQ) = 1
                                     THEN LET p == FirstOf(Occurs(t, EQ)) IN
                                          [s EXCEPT !.counts = Append(@, <<Trim(SubSeq(t, 1, p - 1)), Trim(SubSeq(t, p + 1, Len(t)))>>)]
                                ELSE IF t = UNI THEN [s EXCEPT !.st = "uni"] ELSE [s EXCEPT !.bad = TRUE]
            [] s.st = "uni" -> IF t = <<>> THEN s
                               ELSE IF t = END THEN [s EXCEPT !.st = "end"]
                               ELSE IF Head(t) = BACKSL THEN [s EXCEPT !.st = "ngram"]
                               ELSE IF Len(f) \in {2, 3} THEN [s EXCEPT !.uni = Append(@, <<f[1], f[2]>>)] ELSE [s EXCEPT !.bad = TRUE]
            [] s.st = "ngram" -> IF t = END THEN [s EXCEPT !.st = "end"] ELSE s
            [] OTHER -> s
RECURSIVE ArpaFold(_, _, _)
ArpaFold(s, L, i) == IF i > Len(L) THEN s ELSE ArpaFold(ArpaLine(s, L[i]), L, i + 1)
Arpa(b) == ArpaFold(Arpa0, Lines(b), 1)
ArpaOk(a) == ~a.bad /\ a.st = "end"

(* prune_lm: the same unigrams with the same probabilities, the unigram count, nothing else *)
Pruned(a, out) ==
  LET o == Arpa(out)
      L == Lines(out)
  IN /\ ArpaOk(o)
     /\ o.uni = a.uni
     /\ o.counts = SelectSeq(a.counts, LAMBDA c : c[1] = NGRAM1)
     \* no other section, nothing behind the end
     /\ {Trim(L[i]) : i \in {j \in 1 .. Len(L) : Trim(L[j]) # <<>> /\ Head(Trim(L[j])) = BACKSL}} = {DATA, UNI, END}
     /\ Trim(L[Len(L)]) = END
     \* no backoff weights
     /\ \A i \in 1 .. Len(L) : Trim(L[i]) # <<>> /\ Head(Trim(L[i])) # BACKSL /\ Count(L[i], EQ) = 0 => Len(Fields(L[i])) = 2

(* ------------------------------------------------ convert_unigram: ARPA + vocabulary -> costs *)
UNK == <<60, 117, 110, 107, 62>>
VocabFields(b) == LET L == Lines(b) IN SelectSeq([i \in 1 .. Len(L) |-> Fields(L[i])], LAMBDA f : f # <<>>)
VocabOk(V) == V # <<>> /\ \A i \in 1 .. Len(V) : Len(V[i]) = 2 /\ IsNat(V[i][2])
VocabBad(V) == V = <<>> \/ \E i \in 1 .. Len(V) : Len(V[i]) # 2
Known(V, w) == \E i \in 1 .. Len(V) : V[i][1] = w
VId(V, w) == NatVal(V[MaxOf({i \in 1 .. Len(V) : V[i][1] = w})][2])
UniWords(a) == {a.uni[i][2] : i \in 1 .. Len(a.uni)} \cup {BOS}
\* every word but <unk> has an id; no two words share one (which of their costs then counts is open)
UniKnown(a, V) == \A w \in UniWords(a) : w = UNK \/ Known(V, w)
UniOpen(a, V) == \E w, x \in UniWords(a) : w # x /\ Known(V, w) /\ Known(V, x) /\ VId(V, w) = VId(V, x)
ProbOf(a, w) == a.uni[MaxOf({i \in 1 .. Len(a.uni) : a.uni[i][2] = w})][1]
LN10 == <<4046, 9299, 8509, 3025, 2>>       \* 2.3025850929940(46)e16: natural logarithm of ten
(* cost c (bytes) of log10 probability p: -p * ln 10 *)
CostOf(c, p) ==
  LET t == Decimal(p)
      \* t.d * LN10 / 10^16, as t.d * 2302585092994046 (two factors, each below the limit of Mul)
      D == Times10(Mul(t.d, 2), 15)
      D2 == Mul(t.d, 302)                                  \* 2.302 585 092 994 046
      D3 == Mul(t.d, 585)
      D4 == Mul(t.d, 92)
      D5 == Mul(t.d, 994)
      D6 == Mul(t.d, 46)
      S == Add(D, Add(Times10(D2, 12), Add(Times10(D3, 9), Add(Times10(D4, 6), Add(Times10(D5, 3), D6)))))
  IN t.ok /\ Nearest(c, ~t.neg, Norm(S), t.e - 15)
UniFile(a, V, b) ==
  /\ Whole("vecf", b)
  /\ LET v == Read("vecf", b, 1).val
         ids == {NatVal(V[i][2]) : i \in 1 .. Len(V)}
         wanted == {w \in UniWords(a) : Known(V, w)}
     IN /\ Len(v) = MaxOf(ids) + 1
        /\ \A i \in 1 .. Len(v) : (\A w \in wanted : VId(V, w) # i - 1) => FInf(v[i])
        /\ \A w \in wanted : IF w = BOS THEN FZero(v[VId(V, w) + 1])
                             ELSE CostOf(v[VId(V, w) + 1], ProbOf(a, w))

(* ------------------------------------------------ convert_words: symbol table *)
SYM0 == <<83, 89, 77, 48>>
EMPTY == <<60, 101, 109, 112, 116, 121, 62>>
WordsFields(b) == LET L == Lines(b) IN [i \in 1 .. Len(L) |-> Fields(L[i])]
WordsOk(F) == F # <<>> /\ \A i \in 1 .. Len(F) : Len(F[i]) = 2 /\ IsNat(F[i][2])
WordsBad(F) == \E i \in 1 .. Len(F) : Len(F[i]) # 2
WordsTable(F) == [k \in 1 .. MaxOf({NatVal(F[i][2]) : i \in 1 .. Len(F)}) + 1 |->
                   LET S == {i \in 1 .. Len(F) : NatVal(F[i][2]) = k - 1} IN IF S = {} THEN EMPTY ELSE F[MaxOf(S)][1]]
(* SYM0, size, number of symbols, bytes of the buffer, offsets, the symbols with their terminators *)
WordsFile(F, b) ==
  LET W == WordsTable(F)
      n == Len(W)
      end(k) == LET lens == [i \in 1 .. k |-> Len(W[i]) + 1] IN FoldSeq(LAMBDA x, y : x + y, 0, lens)
  IN /\ Tag(b, 1, SYM0) /\ Has(b, 1, 16 + 4 * n)
     /\ I32(b, 9) = n
     /\ I32(b, 13) = end(n)
     /\ I32(b, 5) = 8 + 4 * n + end(n)
     /\ Len(b) = 16 + 4 * n + end(n)
     /\ \A k \in 1 .. n : LET o == I32(b, 17 + 4 * (k - 1)) IN
          /\ o = end(k - 1)
          /\ Bytes(b, 17 + 4 * n + o, Len(W[k]) + 1) = Append(W[k], 0)

(* ------------------------------------------------ convert_cmvn_stats: 2 x 41 matrix -> its first row *)
CmvnNums(b) == SelectSeq(Fields(b), LAMBDA s : Decimal(s).ok)
CmvnOpen(b) == LET odd == SelectSeq(Fields(b), LAMBDA s : ~Decimal(s).ok /\ s # <<91>> /\ s # <<93>>) IN odd # <<>>
CmvnFile(N, b) == /\ Whole("vecf", b)
                  /\ LET v == Read("vecf", b, 1).val
                     IN Len(v) = 41 /\ \A i \in 1 .. 41 : NearText(v[i], N[i])

(* ------------------------------------------------ convert_fstfmt: an OpenFST -> the engine's FST *)
(* in: [start, fin (bytes), arcs (per state: 16 bytes each)]; the arcs of a state come out sorted by       *)
(* input label                                                                                           *)
ILabel(a) == I32(a, 5)
SortedArcs(o) == \A i \in 1 .. Len(o) - 1 : ILabel(o[i]) <= ILabel(o[i + 1])
SameBag(x, y) == Len(x) = Len(y) /\ \A e \in ToSet(x) \cup ToSet(y) :
                   Len(SelectSeq(x, LAMBDA z : z = e)) = Len(SelectSeq(y, LAMBDA z : z = e))
FstFile(f, b) == /\ Whole("fst", b)
                 /\ LET r == Read("fst", b, 1).val
                    IN /\ r.start = f.start
                       /\ r.fin = f.fin
                       /\ \A s \in 1 .. Len(f.fin) :
                            /\ (f.arcs[s] = <<>> => r.idx[s] < 0)
                            /\ LET o == ArcsOf(r, s) IN SortedArcs(o) /\ SameBag(o, f.arcs[s])

(* ------------------------------------------------ convert_am: a Kaldi nnet3 -> layers *)
(* nodes: <<[comp, offs]>> in order (offs = <<>>: the plain output of the node before); comps: name -> record:  *)
(* affine (w: outputs x inputs, b), relu, logsoftmax, bn (mean, var, eps, rms)                            *)
LeftOf(offs) == IF offs = <<>> THEN 0 ELSE LET m == CHOOSE x \in ToSet(offs) : \A y \in ToSet(offs) : x <= y IN IF m < 0 THEN 0 - m ELSE 0
RightOf(offs) == IF offs = <<>> THEN 0 ELSE LET m == MaxOf(ToSet(offs)) IN IF m > 0 THEN m ELSE 0
CompOf(net, name) == net.comps[CHOOSE i \in 1 .. Len(net.comps) : net.comps[i].name = name]
RECURSIVE Want(_, _)
Want(net, k) ==
  IF k > Len(net.nodes) THEN <<>>
  ELSE LET n == net.nodes[k]
       IN (IF n.offs = <<>> THEN <<>> ELSE <<[t |-> "splice", offs |-> n.offs],
                                             [t |-> "narrow", l |-> LeftOf(n.offs), r |-> RightOf(n.offs)]>>)
          \o <<CompOf(net, n.comp)>> \o Want(net, k + 1)
Near(V, T) == Len(V) = Len(T) /\ \A i \in 1 .. Len(T) : NearText(V[i], T[i])
(* a float that is exactly n / 64 *)
Near64(V, N) == Len(V) = Len(N) /\ \A i \in 1 .. Len(N) :
                  Nearest(V[i], N[i] < 0, Mul(Nat2Big(IF N[i] < 0 THEN 0 - N[i] ELSE N[i]), 15625), -6)
(* scale s and offset o of a batch normalisation: scale^2 * (var + eps) = rms^2, offset = -mean * scale,   *)
(* all in units of 1/64 (the generator proposes scale and offset)                                        *)
BnDef(w) == \A i \in 1 .. Len(w.mean) :
              /\ w.scale[i] * w.scale[i] * (w.var[i] + w.eps) = w.rms * w.rms * 64
              /\ w.off[i] * 64 = 0 - w.mean[i] * w.scale[i]
SameLayer(w, y) ==
  CASE w.t = "splice" -> y[1] = 6 /\ y[2] = w.offs
    [] w.t = "narrow" -> y[1] = 9 /\ y[2] = <<w.l, w.r>>
    [] w.t = "affine" -> /\ y[1] = 0
                         /\ Len(y[2][1]) = Len(w.w[1])                            \* one row per input
                         /\ \A i \in 1 .. Len(w.w[1]) : Near(y[2][1][i], [o \in 1 .. Len(w.w) |-> w.w[o][i]])
                         /\ Near(y[2][2], w.b)
    [] w.t = "relu" -> y[1] = 1
    [] w.t = "logsoftmax" -> y[1] = 8
    [] OTHER -> /\ y[1] = 7
                /\ BnDef(w) /\ Near64(y[2][1], w.scale) /\ Near64(y[2][2], w.off)
AmFile(net, b, prior) ==
  /\ Whole("net", b)
  /\ LET r == Read("net", b, 1).val
         w == Want(net, 1)
     IN /\ Len(r.layers) = Len(w)
        /\ \A i \in 1 .. Len(w) : SameLayer(w[i], r.layers[i])
        /\ r.left = FoldSeq(LAMBDA n, x : x + LeftOf(n.offs), 0, net.nodes)
        /\ r.right = FoldSeq(LAMBDA n, x : x + RightOf(n.offs), 0, net.nodes)
  /\ Whole("vecf", prior)
  /\ Near(Read("vecf", prior, 1).val, net.prior)
=============================================================================
