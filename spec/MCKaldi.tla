------------------------------- MODULE MCKaldi -------------------------------
(* The converter's Splice + Narrow + component layers compute exactly the Kaldi network, for all small     *)
(* networks of two nodes and every number of frames from the receptive field on.                         *)
EXTENDS Kaldi, TLC
CONSTANT MaxT, MaxOff
Offs == 0 - MaxOff .. MaxOff
OffSeqs == {<<>>} \cup {<<a>> : a \in Offs} \cup {<<a, b>> : a \in Offs, b \in Offs}
Comps(d) == {[t |-> "affine", w |-> <<[i \in 1 .. d |-> i], [i \in 1 .. d |-> 1 - i]>>, b |-> <<1, 0>>], [t |-> "relu"]}
Width(o, d) == IF o = <<>> THEN d ELSE d * Len(o)
OutDim(c, d) == IF c.t = "relu" THEN d ELSE 2
Nodes(d) == UNION {{[offs |-> o, c |-> c] : c \in Comps(Width(o, d))} : o \in OffSeqs}
\* distinct values identify every frame
X(T) == [t \in 1 .. T |-> <<IF t % 2 = 0 THEN t * t ELSE 0 - t>>]
VARIABLES net, T
vars == <<net, T>>
Init == /\ T \in 1 .. MaxT
        /\ net \in UNION {{<<n>> \o <<m>> : m \in Nodes(OutDim(n.c, Width(n.offs, 1)))} : n \in Nodes(1)}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Same == T >= KNeed(net) => ApplyAll(KAll(net), X(T)) = KNet(net, X(T))
Cuts == LeftCut(KAll(net)) + RightCut(KAll(net)) + 1 = KNeed(net)
=============================================================================
