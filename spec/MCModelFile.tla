----------------------------- MODULE MCModelFile -----------------------------
(* Laws of the format: what a writer writes is read back; every proper prefix of a section is refused;    *)
(* bytes behind the section change nothing.                                                              *)
EXTENDS ModelFile, TLC
CONSTANT MaxDim, Vals
VARIABLES kind, val, cut
vars == <<kind, val, cut>>
P32(n) == LET m == IF n < 0 THEN n + 1073741824 + 1073741824 ELSE n       \* 31 low bits
          IN <<m % 256, (m \div 256) % 256, (m \div 65536) % 256, (m \div 16777216) + (IF n < 0 THEN 128 ELSE 0)>>
RECURSIVE Cat(_)
Cat(s) == IF s = << >> THEN << >> ELSE Head(s) \o Cat(Tail(s))
WVec(v) == VEC0 \o P32(4 * Len(v) + 4) \o P32(Len(v)) \o Cat(v)
WMat(m) == MAT0 \o P32(8) \o P32(Len(m)) \o P32(IF m = << >> THEN 0 ELSE Len(m[1])) \o Cat([i \in 1 .. Len(m) |-> WVec(m[i])])
WFst(f) == FSTNAME \o [i \in 1 .. 22 |-> 0] \o P32(12 + 8 * Len(f.fin) + 16 * Len(f.arcs)) \o P32(Len(f.fin)) \o P32(Len(f.arcs))
           \o P32(f.start) \o Cat(f.fin) \o Cat([i \in 1 .. Len(f.idx) |-> P32(f.idx[i])]) \o Cat(f.arcs)
WNet(n) == NN02 \o P32(n.left) \o P32(n.right) \o P32(2)
           \o LAY0 \o P32(0) \o WMat(n.layers[1][2][1]) \o WVec(n.layers[1][2][2])
           \o LAY0 \o P32(6) \o P32(Len(n.layers[2][2])) \o Cat([i \in 1 .. Len(n.layers[2][2]) |-> P32(n.layers[2][2][i])])
Cells == {<<x, 0, 255, y>> : x \in Vals, y \in Vals}
Vecs(n) == [1 .. n -> Cells]
AllVecs == UNION {Vecs(n) : n \in 0 .. MaxDim}
Mats == {<< >>} \cup UNION {[1 .. r -> Vecs(c)] : r \in 1 .. MaxDim, c \in 1 .. MaxDim}
Arc(x) == [i \in 1 .. 16 |-> IF i = 5 THEN x ELSE 0]
Fsts == {[start |-> s, fin |-> f, idx |-> ix, arcs |-> a] :
           s \in {0, 1}, f \in Vecs(2), ix \in {<<0, -1>>, <<-1, 0>>, <<0, 1>>}, a \in {<<Arc(x), Arc(y)>> : x \in Vals, y \in Vals}}
Nets == {[left |-> l, right |-> 3, layers |-> <<<<0, <<m, v>>>>, <<6, <<-1, 0, 2>>>>>>] : l \in {0, 2}, m \in Mats, v \in Vecs(1)}
Write == CASE kind = "vecf" -> WVec(val) [] kind = "matf" -> WMat(val) [] kind = "fst" -> WFst(val) [] OTHER -> WNet(val)
Init == /\ \/ kind = "vecf" /\ val \in AllVecs
           \/ kind = "matf" /\ val \in Mats
           \/ kind = "fst" /\ val \in Fsts
           \/ kind = "net" /\ val \in Nets
        /\ cut = 0
Next == cut < Len(Write) /\ cut' = cut + 1 /\ UNCHANGED <<kind, val>>
Spec == Init /\ [][Next]_vars
RoundTrip == cut = 0 => /\ Read(kind, Write, 1) = Done(Len(Write) + 1, val)
                        /\ Read(kind, <<7, 7>> \o Write \o <<86, 69>>, 3) = Done(Len(Write) + 3, val)
Prefix == cut > 0 => ~Read(kind, SubSeq(Write, 1, Len(Write) - cut), 1).ok
=============================================================================
