----------------------------- MODULE PipelineImpl -----------------------------
(* The five buffers between a byte and a decoded frame, as implemented: the incomplete sample of          *)
(* WaveReader, the kept samples of Fbank::Instance, the frame queue of AcousticModel::Instance (with its   *)
(* padding), the decoder, and the last refresh of the hypothesis. Samples and frames are represented by    *)
(* their numbers. For every division of the bytes it refines what Recognizer.tla demands: which rows have   *)
(* reached the decoder is a function of the number of bytes given so far.                                   *)
EXTENDS Recognizer
CONSTANTS MaxBytes, MaxCall, MaxCtx, MaxBatch, Widths
VARIABLES m, w, nb, rest, wbuf, ns, feats, started, dec, snap, ret, ended
vars == <<recVars, m, w, nb, rest, wbuf, ns, feats, started, dec, snap, ret, ended>>
L == m.left
R == m.right
PInit == /\ RInit /\ w \in Widths
         /\ m \in [left : 0 .. MaxCtx, right : 0 .. MaxCtx, chunk : 1 .. MaxBatch]
         /\ nb = 0 /\ rest = 0 /\ wbuf = <<>> /\ ns = 0 /\ feats = <<>> /\ started = FALSE /\ dec = <<>> /\ snap = 0 /\ ret = 0 /\ ended = FALSE

(* Fbank::Process: frames (as their samples) and the kept samples *)
RECURSIVE Cut(_)
Cut(b) == IF Len(b) < Length THEN [fr |-> <<>>, keep |-> b]
          ELSE LET r == Cut(SubSeq(b, Shift + 1, Len(b))) IN [fr |-> <<SubSeq(b, 1, Length)>> \o r.fr, keep |-> r.keep]
(* AcousticModel::Process for one frame: st = [feats, started, dec, snap] *)
Copies(f, n) == [i \in 1 .. n |-> f]
Take(st, rows) ==
  LET d == st.dec \o rows
      q == Period * (Len(d) \div Period)
  IN [st EXCEPT !.dec = d, !.snap = IF q > Len(st.dec) THEN q ELSE @]
Score(st, f) ==
  LET fs == (IF st.started THEN st.feats ELSE Copies(f, L)) \o <<f>>
  IN IF Len(fs) < L + R + m.chunk THEN [st EXCEPT !.feats = fs, !.started = TRUE]
     ELSE Take([st EXCEPT !.feats = SubSeq(fs, m.chunk + 1, Len(fs)), !.started = TRUE],
               [j \in 1 .. m.chunk |-> SubSeq(fs, j, j + L + R)])
RECURSIVE ScoreAll(_, _)
ScoreAll(st, fr) == IF fr = <<>> THEN st ELSE ScoreAll(Score(st, Head(fr)), Tail(fr))
St == [feats |-> feats, started |-> started, dec |-> dec, snap |-> snap]

Give(k) ==
  /\ ~ended /\ nb + k <= MaxBytes
  /\ LET n == (rest + k) \div w
         c == Cut(wbuf \o [i \in 1 .. n |-> ns + i - 1])
         s == IF n = 0 THEN St ELSE ScoreAll(St, c.fr)
     IN /\ rest' = (rest + k) % w /\ ns' = ns + n /\ ret' = n
        /\ wbuf' = IF n = 0 THEN wbuf ELSE c.keep
        /\ feats' = s.feats /\ started' = s.started /\ dec' = s.dec /\ snap' = s.snap
  /\ nb' = nb + k /\ UNCHANGED <<recVars, m, w, ended>>
Finish ==
  /\ ~ended /\ ended' = TRUE
  /\ LET fs == feats \o Copies(feats[Len(feats)], R)
     IN dec' = IF feats = <<>> \/ Len(fs) <= L + R THEN dec
               ELSE dec \o [j \in 1 .. Len(fs) - L - R |-> SubSeq(fs, j, j + L + R)]
  /\ UNCHANGED <<recVars, m, w, nb, rest, wbuf, ns, feats, started, snap, ret>>
Next == (\E k \in 1 .. MaxCall : Give(k)) \/ Finish
Spec == PInit /\ [][Next]_vars

N == NumFrames(nb \div w)
FrameNo(i) == [j \in 1 .. Length |-> Shift * (i - 1) + j - 1]
Cl(i) == IF i < 1 THEN 1 ELSE IF i > N THEN N ELSE i
RowsRight == /\ Len(dec) = IF ended THEN N ELSE Rows(m, N)
             /\ \A t \in 1 .. Len(dec) : dec[t] = [k \in 1 .. L + R + 1 |-> FrameNo(Cl(t - L + k - 1))]
SamplesRight == ns = nb \div w /\ rest = nb % w
SnapRight == snap = Period * (Rows(m, N) \div Period)
NoLeftovers == Len(wbuf) < Length
=============================================================================
