----------------------------- MODULE StringsImpl -----------------------------
(* The helpers as they are written in util.cc, util.h and strlcpy.cc, one loop iteration per step, for   *)
(* every short text. Refines: the result is the one of Strings.tla.                                       *)
(* Rescan: Format looks for the next {} from the start of the text again (a mistake).                     *)
EXTENDS Strings, TLC
CONSTANTS MaxLen, MaxArg, Codes, Rescan, Ops
VARIABLES op, s, d, args, size,        \* inputs
          i, j, k, out, res, pc        \* state of the loop
vars == <<op, s, d, args, size, i, j, k, out, res, pc>>
Texts(n) == UNION {[1 .. m -> Codes] : m \in 0 .. n}
Init ==
  /\ op \in Ops /\ s \in Texts(MaxLen)
  /\ d \in (IF op = "split" THEN Texts(2) \ {<<>>} ELSE {<<>>})
  /\ args \in (IF op = "format" THEN UNION {[1 .. m -> Texts(MaxArg)] : m \in 0 .. 2} ELSE {<<>>})
  /\ size \in (IF op = "copy" THEN 0 .. MaxLen + 2 ELSE {0})
  /\ i = 1 /\ j = (IF op = "trim" THEN Len(s) ELSE 1) /\ k = 1
  /\ out = (IF op = "copy" THEN [x \in 1 .. MaxLen + 3 |-> 238] ELSE IF op = "format" THEN s ELSE <<>>)
  /\ res = (IF op = "copy" THEN size ELSE 0) /\ pc = "run"
Same == UNCHANGED <<op, s, d, args, size>>
(* --- Trim: begin = i, end = j *)
Trim1 == /\ op = "trim" /\ pc = "run" /\ Same /\ UNCHANGED <<k, res>>
         /\ IF i <= Len(s) /\ Blank(s[i]) THEN i' = i + 1 /\ UNCHANGED <<j, out, pc>>
            ELSE IF j > i /\ Blank(s[j]) THEN j' = j - 1 /\ UNCHANGED <<i, out, pc>>
            ELSE out' = SubSeq(s, i, j) /\ pc' = "done" /\ UNCHANGED <<i, j>>
(* --- Split: start = i *)
Split1 == /\ op = "split" /\ pc = "run" /\ Same /\ UNCHANGED <<j, k, res>>
          /\ LET p == FindFrom(s, d, i) IN
             IF p # 0 THEN out' = Append(out, SubSeq(s, i, p - 1)) /\ i' = p + Len(d) /\ UNCHANGED pc
             ELSE out' = (IF i <= Len(s) THEN Append(out, SubSeq(s, i, Len(s))) ELSE out) /\ pc' = "done" /\ UNCHANGED i
(* --- Format: cursor i, argument k *)
Format1 == /\ op = "format" /\ pc = "run" /\ Same /\ UNCHANGED <<j, res>>
           /\ IF k > Len(args) THEN pc' = "done" /\ UNCHANGED <<i, k, out>>
              ELSE LET p == FindFrom(out, Brace, i) IN
                   /\ k' = k + 1 /\ UNCHANGED pc
                   /\ IF p = 0 THEN UNCHANGED <<i, out>>
                      ELSE /\ out' = SubSeq(out, 1, p - 1) \o args[k] \o SubSeq(out, p + 2, Len(out))
                           /\ i' = (IF Rescan THEN 1 ELSE p + Len(args[k]))
(* --- strlcpy: n = res, d = i, s = j; the source is the C string of s *)
Src(x) == IF x <= Len(CStr(s)) THEN CStr(s)[x] ELSE 0
Copy1 ==
  /\ op = "copy" /\ Same /\ UNCHANGED k
  /\ CASE pc = "run" -> /\ res' = (IF res # 0 THEN res - 1 ELSE res)
                        /\ pc' = (IF res # 0 /\ res - 1 # 0 THEN "loop" ELSE "short") /\ UNCHANGED <<i, j, out>>
       [] pc = "loop" -> /\ out' = [out EXCEPT ![i] = Src(j)] /\ i' = i + 1 /\ j' = j + 1
                         /\ IF Src(j) = 0 THEN pc' = "short" /\ UNCHANGED res
                            ELSE res' = res - 1 /\ pc' = (IF res - 1 # 0 THEN "loop" ELSE "short")
       [] pc = "short" -> IF res = 0
                          THEN /\ out' = (IF size # 0 THEN [out EXCEPT ![i] = 0] ELSE out) /\ pc' = "tail" /\ UNCHANGED <<i, j, res>>
                          ELSE res' = j - 2 /\ pc' = "done" /\ UNCHANGED <<i, j, out>>
       [] pc = "tail" -> IF Src(j) # 0 THEN j' = j + 1 /\ UNCHANGED <<i, out, res, pc>>
                         ELSE j' = j + 1 /\ res' = j - 1 /\ pc' = "done" /\ UNCHANGED <<i, out>>
       [] pc = "done" -> FALSE
Next == Trim1 \/ Split1 \/ Format1 \/ Copy1
Spec == Init /\ [][Next]_vars
Right == pc = "done" =>
  CASE op = "trim" -> out = Trim(s)
    [] op = "split" -> out = Split(s, d)
    [] op = "format" -> out = Format(s, args)
    [] op = "copy" -> CopyOk([x \in 1 .. MaxLen + 3 |-> 238], CStr(s), size, out, res)
(* what the definitions promise, independent of how they are written *)
RECURSIVE Join(_, _)
Join(ss, x) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o x \o Join(Tail(ss), x)
Laws == pc = "done" =>
  CASE op = "split" -> LET F == Split(s, d) IN
                       /\ (Join(F, d) = s \/ Join(F, d) \o d = s)
                       /\ \A x \in 1 .. Len(F) : ~Has(F[x], d)
                       /\ F # <<>> => (F[Len(F)] # <<>> \/ IsAt(s, d, Len(s) - Len(d) + 1))
    [] op = "trim" -> LET t == Trim(s) IN Trim(t) = t /\ Has(s, t) = TRUE /\ (t # <<>> => ~Blank(Head(t)) /\ ~Blank(t[Len(t)]))
    [] op = "format" -> LET n == Len(Places(s, Brace)) IN
                        /\ (args = <<>> \/ n = 0 => Format(s, args) = s)
                        /\ Len(Format(s, args)) = Len(s)
                             + Len(Cat([x \in 1 .. (IF n < Len(args) THEN n ELSE Len(args)) |-> args[x]])) - 2 * (IF n < Len(args) THEN n ELSE Len(args))
    [] OTHER -> TRUE
=============================================================================
