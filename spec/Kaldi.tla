-------------------------------- MODULE Kaldi --------------------------------
(* What a Kaldi nnet3 network computes: the value of a node at time t is its component applied to the      *)
(* concatenated values of the node before at t + offset. Rows without all their neighbours do not exist.   *)
(* Integer parameters: affine w (outputs x inputs), b; bn s, o; relu.                                     *)
EXTENDS Layers
LOCAL INSTANCE SequencesExt
Least(offs) == CHOOSE x \in {offs[i] : i \in 1 .. Len(offs)} : \A j \in 1 .. Len(offs) : x <= offs[j]
Most(offs) == CHOOSE x \in {offs[i] : i \in 1 .. Len(offs)} : \A j \in 1 .. Len(offs) : offs[j] <= x
KLeft(offs) == IF offs = <<>> \/ Least(offs) > 0 THEN 0 ELSE 0 - Least(offs)
KRight(offs) == IF offs = <<>> \/ Most(offs) < 0 THEN 0 ELSE Most(offs)
KComp(c, x) ==
  CASE c.t = "affine" -> [o \in 1 .. Len(c.w) |-> SumSeq([i \in 1 .. Len(x) |-> c.w[o][i] * x[i]]) + c.b[o]]
    [] c.t = "bn" -> [i \in 1 .. Len(x) |-> x[i] * c.s[i] + c.o[i]]
    [] OTHER -> [i \in 1 .. Len(x) |-> IF x[i] < 0 THEN 0 ELSE x[i]]
\* X: the rows that exist of the node before
KNode(n, X) ==
  LET l == KLeft(n.offs)
      r == KRight(n.offs)
      rows == IF Len(X) <= l + r THEN 0 ELSE Len(X) - l - r
  IN [t \in 1 .. rows |->
       KComp(n.c, IF n.offs = <<>> THEN X[t] ELSE FlattenSeq([k \in 1 .. Len(n.offs) |-> X[t + l + n.offs[k]]]))]
RECURSIVE KNet(_, _)
KNet(nodes, X) == IF nodes = <<>> THEN X ELSE KNet(Tail(nodes), KNode(Head(nodes), X))
KNeed(nodes) == 1 + SumSeq([i \in 1 .. Len(nodes) |-> KLeft(nodes[i].offs) + KRight(nodes[i].offs)])

(* the layers the converter makes of a node *)
KLayers(n) ==
  (IF n.offs = <<>> THEN <<>> ELSE <<[t |-> "splice", ix |-> n.offs], [t |-> "narrow", l |-> KLeft(n.offs), r |-> KRight(n.offs)]>>)
  \o << CASE n.c.t = "affine" -> [t |-> "linear", w |-> [i \in 1 .. Len(n.c.w[1]) |-> [o \in 1 .. Len(n.c.w) |-> n.c.w[o][i]]], b |-> n.c.b]
          [] n.c.t = "bn" -> [t |-> "bn", s |-> n.c.s, o |-> n.c.o]
          [] OTHER -> [t |-> "relu"] >>
KAll(nodes) == FlattenSeq([i \in 1 .. Len(nodes) |-> KLayers(nodes[i])])
=============================================================================
