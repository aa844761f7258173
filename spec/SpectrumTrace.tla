----------------------------- MODULE SpectrumTrace -----------------------------
EXTENDS Spectrum, Json, IOUtils, TLC
LOCAL Q == INSTANCE Quant
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TNew == Is("new")
(* one transform; y in units of 2^-24 (fine) or 2^-14. A float transform is exact to about 2^-17 of the     *)
(* absolute sum of its input                                                                            *)
TFft == /\ Is("fft")
        /\ LET T == IF E.fine THEN Cos24 ELSE Cos14
               w == (IF E.dir = "f" THEN Forward(T, E.n, E.x) ELSE Backward(T, E.n, E.x)) \o <<>>
               tol == IF E.fine THEN 96 * Size1(E.x) * (IF E.dir = "f" THEN 1 ELSE 2) ELSE 2 * Size1(E.x) + 2
           IN Len(E.y) = E.n /\ \A o \in 1 .. E.n : Mag(E.y[o] - w[o]) <= tol
(* the log energies of one window *)
TFrame == /\ Is("frame")
          /\ LET P == Spectrum(Windowed(E.x, E.sh))
             IN Len(E.e) = Filters /\ \A b \in 1 .. Filters : EnergyOk(E.e[b], EnergyOf(P, b), b)
(* features (units 10^-4) of a window and of the same window times 2^k: shifted by 2 k ln 2, unless at the   *)
(* floor ln(FLT_EPSILON) = -15.9424; a constant window has no energy                                       *)
Floor4 == -159424
TScale == /\ Is("scale")
          /\ \A b \in 1 .. Filters :
               /\ E.a[b] >= Floor4 - 1 /\ E.b[b] >= Floor4 - 1
               /\ (E.const => E.a[b] <= Floor4 + 1 /\ E.b[b] <= Floor4 + 1)
               /\ LET s == E.a[b] + (E.k2 * 138629) \div 10
                  IN IF E.a[b] <= Floor4 + 2 THEN E.b[b] <= (IF s < Floor4 THEN Floor4 ELSE s) + 4
                     ELSE IF s <= Floor4 THEN E.b[b] <= Floor4 + 4
                     ELSE Mag(E.b[b] - s) <= 4
TQuant == /\ Is("quant")
          /\ Q!QuantOk(E.a, E.qa, E.da) /\ Q!QuantOk(E.b, E.qb, E.db)
          /\ LET p == Q!Product(E.a, E.b)
                 exact == Q!Representable(E.a) /\ Q!Representable(E.b)
             IN \A i \in 1 .. Len(p) : \A j \in 1 .. Len(p[i]) :
                  IF exact THEN Mag(E.c[i][j] - 64 * p[i][j]) <= 2 + Mag(p[i][j]) \div 16384
                  ELSE Mag(E.c[i][j] - 64 * p[i][j]) <= Q!Slack(E.a, E.b, i, j) + 4 + Mag(p[i][j]) \div 16384
TraceInit == l = 1
TraceNext == TNew \/ TFft \/ TFrame \/ TScale \/ TQuant
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted ==
  PrintT("TRACE-MATCHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
