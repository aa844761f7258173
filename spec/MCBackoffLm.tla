----------------------------- MODULE MCBackoffLm -----------------------------
(* All LMs over three states and two words (word 1, word 2 = </s>), and on each of them the cached    *)
(* view with a cache of NB entries for every query history.                                            *)
EXTENDS BackoffLm, FiniteSets, TLC, Json
CONSTANTS NB, DoPrint
VARIABLES lm, cache, q, res
vars == <<lm, cache, q, res>>
States == 0 .. 2
Words == {1, 2}
Opt(x) == {<< >>} \cup {<< <<x, n, 4 * x + n, x>> >> : n \in {0, 2}}
Wds == {a \o b : a \in Opt(1), b \in Opt(2)}
Bk(s) == {<< >>} \cup {<< <<0, n, 3 + s, 0>> >> : n \in {m \in States : m < s}}
Lms == [start : {0}, arcs : {<<a, b1 \o b2, c1 \o c2>> : a \in Wds, b1 \in Bk(1), b2 \in Wds, c1 \in Bk(2), c2 \in Wds},
        fin : {<<Inf, Inf, 1>>, <<2, Inf, Inf>>}]
Hash(s, x) == (19 * 961 + 31 * s + x) % NB
NoEntry == [s |-> -1, arc |-> NoArc]
Init == lm \in Lms /\ cache = [i \in 0 .. NB - 1 |-> NoEntry] /\ q = <<"none">> /\ res = NoArc
(* CachedFst::GetArc *)
Query(s, x) ==
  LET h == Hash(s, x)
      direct == LmArc(lm, s, x)
      hit == cache[h].s = s /\ cache[h].arc # NoArc /\ cache[h].arc[1] = x
  IN /\ q' = <<"arc", s, x>>
     /\ res' = IF s # 0 /\ hit THEN cache[h].arc ELSE direct
     /\ cache' = IF s = 0 \/ hit \/ direct = NoArc THEN cache ELSE [cache EXCEPT ![h] = [s |-> s, arc |-> direct]]
     /\ UNCHANGED lm
Next == ~DoPrint /\ \E s \in States, x \in Words : Query(s, x)
Spec == Init /\ [][Next]_vars
CacheExact == q[1] = "arc" => res = LmArc(lm, q[2], q[3])
Arpa == q[1] = "none" =>
        \A s \in States, x \in Words : LET a == LmArc(lm, s, x)
                                       IN ArpaCost(lm, s, x) = IF a = NoArc THEN Inf ELSE a[3]
Emit == DoPrint => PrintT("BEH" \o ToJson(lm))
=============================================================================
