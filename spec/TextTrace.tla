------------------------------ MODULE TextTrace ------------------------------
EXTENDS Text, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, lines, n, conf, name, sym, verdict
tv == <<lines, n, conf, name, sym, verdict>>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Keep(x) == UNCHANGED x
TInit == l = 1 /\ lines = <<>> /\ n = 0 /\ conf = <<>> /\ name = <<>> /\ sym = <<>> /\ verdict = "none"
RECURSIVE DecText(_)
DecText(i) == IF i < 10 THEN <<48 + i>> ELSE Append(DecText(i \div 10), 48 + (i % 10))
TNew == Is("new") /\ UNCHANGED tv
(* --- a text file read line by line *)
TFile == Is("file") /\ lines' = LinesR(E.r) /\ n' = 0 /\ Keep(<<conf, name, sym, verdict>>)
TLine == /\ Is("line")
         /\ IF n < Len(lines) THEN E.got /\ E.st /\ E.t = lines[n + 1]
            ELSE IF n = Len(lines) THEN ~E.got /\ E.st
            ELSE ~E.got /\ ~E.st /\ E.err
         /\ n' = n + 1 /\ Keep(<<lines, conf, name, sym, verdict>>)
(* --- configuration *)
TConf == Is("conf") /\ conf' = ConfParsed(E.b) /\ name' = E.name /\ Keep(<<lines, n, sym>>)
         /\ LET v == ConfVerdict(conf') IN
            /\ v = "accept" => E.ok
            /\ v = "refuse" => ~E.ok
            /\ ~E.ok => E.err
            /\ verdict' = IF E.ok /\ v = "accept" THEN "ok" ELSE "none"
TNoConf == Is("noconf") /\ ~E.ok /\ E.err /\ UNCHANGED tv
DefStr == <<68, 70>>
TQ == /\ Is("q") /\ UNCHANGED tv
      /\ verdict = "ok" =>
         IF ~Defined(conf, E.k)
         THEN /\ ~E.sok /\ ~E.pok /\ ~E.iok /\ E.serr /\ E.perr /\ E.ierr
              /\ E.sdef = DefStr /\ E.pdef = DefStr /\ E.idef = 77
         ELSE LET v == Value(conf, E.k)
                  i == IntOf(v)
              IN /\ E.sok /\ E.pok /\ E.s = v /\ E.sdef = v /\ E.p = PathOf(name, v) /\ E.pdef = PathOf(name, v)
                 /\ CASE i.k = "int" -> E.iok /\ E.i = i.v /\ E.idef = i.v
                      [] i.k = "bad" -> ~E.iok /\ E.ierr /\ E.idef = 77
                      [] i.k = "open" -> TRUE
(* --- symbol table *)
TSym == Is("sym") /\ Keep(<<lines, n, conf, name>>)
        /\ LET P == SymParsed(E.b)
               v == SymVerdict(P)
           IN /\ v = "accept" => E.ok
              /\ v = "refuse" => ~E.ok
              /\ ~E.ok => E.err
              /\ (E.ok /\ v = "accept") => E.bos = IdOf(P, BOS) /\ E.eos = IdOf(P, EOS)
              /\ sym' = P /\ verdict' = IF E.ok /\ v = "accept" THEN "sym" ELSE "none"
(* a large vocabulary: word "w<i>" on line i + 1 with id i *)
TBigSym == /\ Is("bigsym") /\ E.ok /\ E.bos = 0 /\ E.eos = 1 /\ E.bad = -1 /\ UNCHANGED tv
           /\ \A x \in 1 .. Len(E.q) : LET i == E.q[x][1] IN
                IF i < E.n THEN E.q[x][2] = i /\ E.q[x][3] = <<119>> \o DecText(i)
                ELSE E.q[x][2] = -1
TNoSym == Is("nosym") /\ ~E.ok /\ E.err /\ UNCHANGED tv
TW == Is("w") /\ (verdict = "sym" => E.id = IdOf(sym, E.w)) /\ UNCHANGED tv
(* words come back as C strings: one with a NUL is not looked at *)
TI == Is("i") /\ (verdict = "sym" => LET w == WordOf(sym, E.id) IN Occurs(w, 0) # {} \/ E.w = w) /\ UNCHANGED tv
TNext == TNew \/ TFile \/ TLine \/ TConf \/ TNoConf \/ TQ \/ TSym \/ TBigSym \/ TNoSym \/ TW \/ TI
TSpec == TInit /\ [][TNext]_<<l, tv>>
TraceAccepted ==
  PrintT("TRACE-MATCHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
