------------------------------- MODULE MatImpl -------------------------------
(* How the engine represents matrices: a descriptor <<base, rows, cols, stride>> over flat storage, rows
   padded to a multiple of Pad when the default stride is chosen; views are descriptors into the storage
   of their owner, an empty matrix has no storage. The abstraction of the storage is the value of Mat.tla
   after every history of operations; freed blocks are never referenced; no operation writes outside its
   owner's block. *)
EXTENDS Mat, TLC, FiniteSets
CONSTANTS MaxDim, Pad, Depth, Vals
VARIABLES mem,      \* block id -> sequence of cells ("u": never written)
          desc,     \* matrix number -> descriptor [b, r, c, s]; b = 0: no storage
          abs,      \* the values required by Mat.tla
          step, nextb, live
vars == <<mem, desc, abs, step, nextb, live>>

None == [b |-> 0, r |-> 0, c |-> 0, s |-> 0]
N == 1..2
Init == mem = << >> /\ desc = [i \in N |-> None] /\ abs = [i \in N |-> Empty] /\ step = 0 /\ nextb = 1 /\ live = {}

Stride(c, def) == IF def THEN c + ((Pad - (c % Pad)) % Pad) ELSE c
\* storage always holds rows * padded stride cells, whatever the stride used
Alloc(r, c, def) == [b |-> nextb, r |-> r, c |-> c, s |-> Stride(c, def)]
Block(r, c, v) == [k \in 1..(r * Stride(c, TRUE)) |-> v]
At(d, i, j) == (i - 1) * d.s + j        \* 1-based offset of cell (i, j) in its block
Cell(i, r, c) == mem[desc[i].b][At(desc[i], r, c)]

Value(i) == IF desc[i].b = 0 THEN Empty
            ELSE [r |-> desc[i].r, c |-> desc[i].c,
                  d |-> [a \in 1..desc[i].r |-> [e \in 1..desc[i].c |-> Cell(i, a, e)]]]

Write(b, S, F(_)) == [k \in 1..Len(b) |-> IF k \in S THEN F(k) ELSE b[k]]
Tick == step < Depth /\ step' = step + 1

(* zero-fill row by row, or in one run when rows are contiguous *)
Zeroed(d, b) ==
  IF d.c = d.s THEN Write(b, 1..(d.r * d.c), LAMBDA k : 0)
  ELSE Write(b, {At(d, i, j) : i \in 1..d.r, j \in 1..d.c}, LAMBDA k : 0)

ResizeZero(i, r, c, def) ==
  /\ Tick
  /\ abs' = [abs EXCEPT ![i] = Resized(abs[i], r, c, 0)]
  /\ IF desc[i].b # 0 /\ desc[i].r = r /\ desc[i].c = c
     THEN /\ mem' = [mem EXCEPT ![desc[i].b] = Zeroed(desc[i], mem[desc[i].b])]
          /\ UNCHANGED <<desc, nextb, live>>
     ELSE IF r * c = 0
     THEN desc' = [desc EXCEPT ![i] = None] /\ live' = live \ {desc[i].b} /\ UNCHANGED <<mem, nextb>>
     ELSE /\ desc' = [desc EXCEPT ![i] = Alloc(r, c, def)]
          /\ mem' = Append(mem, Zeroed(Alloc(r, c, def), Block(r, c, 99)))
          /\ nextb' = nextb + 1
          /\ live' = (live \ {desc[i].b}) \union {nextb}

ResizeKeep(i, r, c, def) ==
  /\ Tick
  /\ abs' = [abs EXCEPT ![i] = Resized(abs[i], r, c, 2)]
  /\ IF desc[i].b = 0 \/ r = 0
     THEN IF r * c = 0
          THEN desc' = [desc EXCEPT ![i] = None] /\ live' = live \ {desc[i].b} /\ UNCHANGED <<mem, nextb>>
          ELSE /\ desc' = [desc EXCEPT ![i] = Alloc(r, c, def)]
               /\ mem' = Append(mem, Zeroed(Alloc(r, c, def), Block(r, c, 99)))
               /\ nextb' = nextb + 1
               /\ live' = (live \ {desc[i].b}) \union {nextb}
     ELSE IF r = desc[i].r /\ c = desc[i].c THEN UNCHANGED <<mem, desc, nextb, live>>
     ELSE LET d == Alloc(r, c, FALSE)
              grown == r > desc[i].r \/ c > desc[i].c
              blk == IF grown THEN Zeroed(d, Block(r, c, 99)) ELSE Block(r, c, 99)
              rm == Min2(r, desc[i].r)
              cm == Min2(c, desc[i].c)
              cell == [k \in 1..Len(blk) |->
                        IF \E a \in 1..rm, e \in 1..cm : At(d, a, e) = k
                        THEN LET p == CHOOSE p \in (1..rm) \X (1..cm) : At(d, p[1], p[2]) = k
                             IN Cell(i, p[1], p[2])
                        ELSE blk[k]]
          IN /\ desc' = [desc EXCEPT ![i] = d]
             /\ mem' = Append(mem, cell)
             /\ nextb' = nextb + 1
             /\ live' = (live \ {desc[i].b}) \union {nextb}

Rects(m) == {R \in [ro : 0..MaxDim - 1, r : 1..MaxDim, co : 0..MaxDim - 1, c : 1..MaxDim] : Within(m, R)}

(* a constant written through a view *)
FillView(i, R, v) ==
  /\ Tick
  /\ LET d == desc[i]
         S == {At(d, R.ro + a, R.co + e) : a \in 1..R.r, e \in 1..R.c}
     IN mem' = [mem EXCEPT ![d.b] = Write(mem[d.b], S, LAMBDA k : v)]
  /\ abs' = [abs EXCEPT ![i] = Put(abs[i], R, Fill(R.r, R.c, v).d)]
  /\ UNCHANGED <<desc, nextb, live>>

(* copy the view R of i into the view with the same shape at <<ro, co>> of k *)
CopyView(i, R, k, ro, co) ==
  /\ Tick /\ i # k
  /\ LET T == [ro |-> ro, r |-> R.r, co |-> co, c |-> R.c] IN
     /\ Within(abs[k], T)
     /\ LET d == desc[k]
            S == {At(d, T.ro + a, T.co + e) : a \in 1..T.r, e \in 1..T.c}
            src(x) == LET p == CHOOSE p \in (1..R.r) \X (1..R.c) : At(d, T.ro + p[1], T.co + p[2]) = x
                      IN Cell(i, R.ro + p[1], R.co + p[2])
        IN mem' = [mem EXCEPT ![d.b] = Write(mem[d.b], S, src)]
     /\ abs' = [abs EXCEPT ![k] = Put(abs[k], T, View(abs[i], R))]
  /\ UNCHANGED <<desc, nextb, live>>

Swap == /\ Tick
        /\ desc' = [i \in N |-> desc[3 - i]] /\ abs' = [i \in N |-> abs[3 - i]]
        /\ UNCHANGED <<mem, nextb, live>>

TransposeSquare(i) ==
  /\ Tick /\ desc[i].r = desc[i].c /\ desc[i].b # 0
  /\ LET d == desc[i]
         S == {At(d, a, e) : a \in 1..d.r, e \in 1..d.c}
         src(x) == LET p == CHOOSE p \in (1..d.r) \X (1..d.c) : At(d, p[1], p[2]) = x IN Cell(i, p[2], p[1])
     IN mem' = [mem EXCEPT ![d.b] = Write(mem[d.b], S, src)]
  /\ abs' = [abs EXCEPT ![i].d = Transposed(abs[i].d)]
  /\ UNCHANGED <<desc, nextb, live>>

Dims == {<<0, 0>>} \union ((1..MaxDim) \X (1..MaxDim))
Next ==
  \/ \E i \in N, p \in Dims, def \in BOOLEAN : ResizeZero(i, p[1], p[2], def) \/ ResizeKeep(i, p[1], p[2], def)
  \/ \E i \in N : abs[i] # Empty /\ \E R \in Rects(abs[i]), v \in Vals : FillView(i, R, v)
  \/ \E i \in N : abs[i] # Empty /\ \E R \in Rects(abs[i]), ro \in 0..MaxDim - 1, co \in 0..MaxDim - 1 : CopyView(i, R, 3 - i, ro, co)
  \/ Swap
  \/ \E i \in N : TransposeSquare(i)
Spec == Init /\ [][Next]_vars

Refines == \A i \in N : Value(i) = abs[i]
NoAlias == \A i \in N : desc[i].b # 0 => desc[i].b \in live /\ desc[3 - i].b # desc[i].b
NoLeak == Cardinality(live) = Cardinality({i \in N : desc[i].b # 0})
InBlock == \A i \in N : desc[i].b # 0 => At(desc[i], desc[i].r, desc[i].c) <= Len(mem[desc[i].b])

(* algebra the product relies on *)
Square2 == {<< <<a, b>>, <<c, d>> >> : a \in Vals, b \in Vals, c \in Vals, d \in Vals}
ASSUME \A A \in Square2, B \in Square2 : Transposed(Product(A, B)) = Product(Transposed(B), Transposed(A))
(* blocks that are no longer used are not part of the state *)
VMap == <<[i \in N |-> IF desc[i].b = 0 THEN << >> ELSE mem[desc[i].b]],
          [i \in N |-> [desc[i] EXCEPT !.b = IF @ = 0 THEN 0 ELSE 1]], abs, step>>
=============================================================================
