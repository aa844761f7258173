------------------------------ MODULE MatTrace ------------------------------
(* Every event carries the complete contents of all matrices and vectors after the call. *)
EXTENDS Mat, Json, IOUtils, TLC, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES M, V, l
tvars == <<M, V, l>>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Observed == M' = E.m /\ V' = E.v
R0(x) == [ro |-> x[1], r |-> x[2], co |-> x[3], c |-> x[4]]
KeepM == M' = M
KeepV == V' = V

TNew == Is("new") /\ M' = [i \in 1..3 |-> Empty] /\ V' = [i \in 1..3 |-> << >>]
TResize == Is("resize") /\ M' = [M EXCEPT ![E.i] = Resized(@, E.r, E.c, E.kind)] /\ KeepV /\ Observed
TVResize == Is("vresize") /\ V' = [V EXCEPT ![E.i] = VecResized(@, E.n, E.kind)] /\ KeepM /\ Observed
TFill == Is("fill") /\ LET R == R0(E.rect) IN Within(M[E.i], R) /\ M' = [M EXCEPT ![E.i] = Put(@, R, E.val)] /\ KeepV /\ Observed
TScale == Is("mscale") /\ LET R == R0(E.rect) IN
            M' = [M EXCEPT ![E.i] = Put(@, R, [a \in 1..R.r |-> [b \in 1..R.c |-> E.k * M[E.i].d[R.ro + a][R.co + b]]])] /\ KeepV /\ Observed
TZero == Is("mzero") /\ LET R == R0(E.rect) IN M' = [M EXCEPT ![E.i] = Put(@, R, Fill(R.r, R.c, 0).d)] /\ KeepV /\ Observed
TCopy == Is("mcopy") /\ LET R == R0(E.rect)
                            S == R0(E.src)
                            w == View(M[E.j], S)
                        IN M' = [M EXCEPT ![E.i] = Put(@, R, IF E.trans THEN Transposed(w) ELSE w)] /\ KeepV /\ Observed
TTrans == Is("mtrans") /\ LET R == R0(E.rect) IN M' = [M EXCEPT ![E.i] = Put(@, R, Transposed(View(@, R)))] /\ KeepV /\ Observed
TSwap == Is("mswap") /\ M' = [M EXCEPT ![E.i] = M[E.j], ![E.j] = M[E.i]] /\ KeepV /\ Observed
TMul == Is("mmul") /\ M' = [M EXCEPT ![E.i] = Put(@, R0(E.rect), Product(View(M[E.j], R0(E.a)), View(M[E.k], R0(E.b))))] /\ KeepV /\ Observed
TVSwap == Is("vswap") /\ V' = [V EXCEPT ![E.i] = V[E.j], ![E.j] = V[E.i]] /\ KeepM /\ Observed
(* move assignment / construction: the target gets the whole content, the source ends empty *)
TVMove == Is("vmove") /\ V' = (IF E.i = E.j THEN V ELSE [V EXCEPT ![E.i] = V[E.j], ![E.j] = << >>]) /\ KeepM /\ Observed

(* places of vector operations: <<0, k, o, n>> a range of vector k, <<i, row, o, n>> a range of a row *)
Get(p) == IF p[1] = 0 THEN Sub(V[p[2]], p[3], p[4]) ELSE Sub(M[p[1]].d[p[2] + 1], p[3], p[4])
PutP(p, x) == IF p[1] = 0
              THEN V' = [V EXCEPT ![p[2]] = PutVec(@, p[3], x)] /\ KeepM
              ELSE M' = [M EXCEPT ![p[1]].d[p[2] + 1] = PutVec(@, p[3], x)] /\ KeepV
MapTo(p, F(_)) == PutP(p, [i \in 1..p[4] |-> F(i)])
TVSet == Is("vset") /\ MapTo(E.p, LAMBDA i : E.k) /\ Observed
TVZero == Is("vzero") /\ MapTo(E.p, LAMBDA i : 0) /\ Observed
TVPut == Is("vput") /\ PutP(E.p, E.val) /\ Observed
TVScale == Is("vscale") /\ MapTo(E.p, LAMBDA i : E.k * Get(E.p)[i]) /\ Observed
TVAdd == Is("vadd") /\ MapTo(E.p, LAMBDA i : E.k + Get(E.p)[i]) /\ Observed
TVCopy == Is("vcopy") /\ PutP(E.p, Get(E.q)) /\ Observed
TVAddV == Is("vaddv") /\ MapTo(E.p, LAMBDA i : Get(E.p)[i] + E.k * Get(E.q)[i]) /\ Observed
TVMul == Is("vmul") /\ MapTo(E.p, LAMBDA i : Get(E.p)[i] * Get(E.q)[i]) /\ Observed
TVFloor == Is("vfloor") /\ MapTo(E.p, LAMBDA i : Max2(Get(E.p)[i], E.k)) /\ E.ret = Cardinality(CountBelow(Get(E.p), E.k)) /\ Observed
TVDot == Is("vdot") /\ E.ret = Dot(Get(E.p), Get(E.q)) /\ KeepM /\ KeepV /\ Observed

TraceInit == M = << >> /\ V = << >> /\ l = 1
TraceNext == TNew \/ TResize \/ TVResize \/ TFill \/ TScale \/ TZero \/ TCopy \/ TTrans \/ TSwap \/ TMul \/ TVSwap \/ TVMove
             \/ TVSet \/ TVZero \/ TVPut \/ TVScale \/ TVAdd \/ TVCopy \/ TVAddV \/ TVMul \/ TVFloor \/ TVDot
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
  PrintT("TRACE-MATCHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
