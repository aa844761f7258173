---------------------------- MODULE StringsTrace ----------------------------
EXTENDS Strings, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, codes, conf, name, good, file, pos
tv == <<codes, conf, name, good, file, pos>>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TInit == l = 1 /\ codes = [ok |-> 0] /\ conf = <<>> /\ name = <<>> /\ good = FALSE /\ file = <<>> /\ pos = 0
TNew == Is("new") /\ UNCHANGED tv
TTrim == Is("trim") /\ E.r = Trim(E.s) /\ UNCHANGED tv
TLow == Is("low") /\ E.r = Lower(E.s) /\ UNCHANGED tv
TSplit == Is("split") /\ E.r = Split(E.s, E.d) /\ UNCHANGED tv
TFmt == Is("fmt") /\ E.r = Format(E.f, E.a) /\ UNCHANGED tv
TLong == /\ Is("long") /\ UNCHANGED tv
         /\ LET x == LongOf(E.s) IN
            CASE x.k = "int" -> E.ok /\ E.v = x.t
              [] x.k = "bad" -> ~E.ok /\ Has(E.msg, Trim(E.s))
              [] x.k = "open" -> TRUE
TCpy == Is("cpy") /\ CopyOk(E.was, CStr(E.s), E.n, E.now, E.ret) /\ UNCHANGED tv
(* --- results: kinds are told apart, the text is kept, copies and assignments are equal *)
TSt == /\ Is("st")
       /\ E.ok = (E.kind = "ok") /\ (E.code = 0) = E.ok
       /\ (IF E.ok THEN E.what = <<>> ELSE Len(E.what) >= Len(E.m) /\ SubSeq(E.what, Len(E.what) - Len(E.m) + 1, Len(E.what)) = E.m)
       /\ E.same
       /\ (E.kind \in DOMAIN codes => codes[E.kind] = E.code)
       /\ \A k \in DOMAIN codes : k # E.kind => codes[k] # E.code
       /\ codes' = [k \in DOMAIN codes \cup {E.kind} |-> IF k = E.kind THEN E.code ELSE codes[k]]
       /\ UNCHANGED <<conf, name, good, file, pos>>
(* --- refusals name what they refuse *)
TConf == /\ Is("conf") /\ name' = E.name /\ UNCHANGED <<codes, file, pos>>
         /\ IF ~E.there THEN ~E.ok /\ Has(E.msg, E.name) /\ conf' = <<>> /\ good' = FALSE
            ELSE LET P == ConfParsed(E.b)
                     v == ConfVerdict(P)
                 IN /\ conf' = P /\ good' = (E.ok /\ v = "accept")
                    /\ (v = "accept" => E.ok) /\ (v = "refuse" => ~E.ok)
                    /\ ~E.ok => IF \E i \in 1 .. Len(P) : P[i].k = "open" THEN Has(E.msg, E.name)
                                ELSE ConfReport(P, Lines(E.b), E.name, E.msg)
Names(msg, k) == Has(msg, name) /\ (Has(msg, k) \/ Has(msg, Lower(k)))
TGet == /\ Is("get") /\ UNCHANGED tv
        /\ good => IF ~Defined(conf, E.k) THEN /\ ~E.sok /\ ~E.pok /\ ~E.iok
                                               /\ Names(E.smsg, E.k) /\ Names(E.pmsg, E.k) /\ Names(E.imsg, E.k)
                   ELSE LET v == Value(conf, E.k)
                            x == IntOf(v)
                        IN /\ E.sok /\ E.pok /\ (x.k = "int" => E.iok)
                           /\ x.k = "bad" => ~E.iok /\ Names(E.imsg, E.k) /\ Has(E.imsg, v)
(* --- a file read as bytes *)
TOpen == /\ Is("open") /\ UNCHANGED <<codes, conf, good>> /\ name' = E.name /\ pos' = 0
         /\ IF E.there THEN E.ok /\ E.size = Len(E.b) /\ E.fn = E.name /\ file' = E.b
            ELSE ~E.ok /\ Has(E.msg, E.name) /\ file' = <<>>
(* behind a failed read nothing more is said (pos = -1) *)
TRead == /\ Is("read") /\ UNCHANGED <<codes, conf, name, good, file>>
         /\ IF pos < 0 THEN pos' = pos
            ELSE IF pos + E.n <= Len(file) THEN E.ok /\ E.t = SubSeq(file, pos + 1, pos + E.n) /\ pos' = pos + E.n
            ELSE ~E.ok /\ Has(E.msg, name) /\ pos' = -1
TExp == /\ Is("expect") /\ UNCHANGED <<codes, conf, name, good, file>>
        /\ IF pos < 0 THEN pos' = pos
           ELSE IF pos + Len(E.s) > Len(file) THEN ~E.ok /\ Has(E.msg, name) /\ pos' = -1
           ELSE LET t == SubSeq(file, pos + 1, pos + Len(E.s)) IN
                /\ pos' = pos + Len(E.s)
                /\ IF t = E.s THEN E.ok
                   ELSE ~E.ok /\ Has(E.msg, name) /\ Has(E.msg, E.s) /\ Has(E.msg, CStr(t))
TNext == TNew \/ TTrim \/ TLow \/ TSplit \/ TFmt \/ TLong \/ TCpy \/ TSt \/ TConf \/ TGet \/ TOpen \/ TRead \/ TExp
TSpec == TInit /\ [][TNext]_<<l, tv>>
TraceAccepted ==
  PrintT("TRACE-MATCHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
