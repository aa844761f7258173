------------------------------- MODULE Spectrum -------------------------------
(* Discrete Fourier transform, filterbank features and 8-bit quantised products in integer arithmetic.     *)
(* The tables are checked by MCSpectrum.                                                                  *)
EXTENDS BigNat
LOCAL INSTANCE SequencesExt

(* cos(2 pi k / 1024) * 2^24, k = 0 .. 256 *)
Quarter == <<
  16777216, 16776900, 16775953, 16774374, 16772163, 16769321, 16765847, 16761743, 16757007, 16751640, 16745643, 16739015,
  16731757, 16723869, 16715352, 16706205, 16696429, 16686025, 16674992, 16663331, 16651044, 16638129, 16624588, 16610420,
  16595628, 16580211, 16564169, 16547504, 16530216, 16512305, 16493773, 16474620, 16454846, 16434454, 16413442, 16391812,
  16369565, 16346702, 16323224, 16299131, 16274424, 16249104, 16223173, 16196631, 16169479, 16141719, 16113350, 16084375,
  16054795, 16024610, 15993821, 15962431, 15930439, 15897848, 15864658, 15830871, 15796488, 15761510, 15725939, 15689776,
  15653022, 15615678, 15577747, 15539229, 15500126, 15460440, 15420172, 15379323, 15337895, 15295889, 15253308, 15210152,
  15166424, 15122124, 15077256, 15031819, 14985817, 14939251, 14892122, 14844432, 14796184, 14747378, 14698017, 14648103,
  14597637, 14546622, 14495059, 14442951, 14390298, 14337104, 14283370, 14229098, 14174291, 14118950, 14063077, 14006675,
  13949745, 13892291, 13834313, 13775814, 13716797, 13657263, 13597215, 13536656, 13475586, 13414009, 13351928, 13289343,
  13226258, 13162675, 13098597, 13034026, 12968963, 12903413, 12837376, 12770857, 12703856, 12636378, 12568423, 12499995,
  12431097, 12361731, 12291899, 12221604, 12150850, 12079638, 12007971, 11935852, 11863283, 11790268, 11716809, 11642909,
  11568571, 11493797, 11418590, 11342953, 11266890, 11190402, 11113493, 11036165, 10958422, 10880266, 10801701, 10722729,
  10643353, 10563577, 10483403, 10402834, 10321873, 10240524, 10158790, 10076672, 9994176, 9911303, 9828057, 9744441,
  9660458, 9576112, 9491405, 9406340, 9320922, 9235152, 9149035, 9062573, 8975771, 8888630, 8801154, 8713348,
  8625213, 8536753, 8447972, 8358873, 8269459, 8179734, 8089701, 7999364, 7908725, 7817788, 7726557, 7635036,
  7543226, 7451133, 7358759, 7266109, 7173184, 7079990, 6986529, 6892805, 6798821, 6704582, 6610090, 6515349,
  6420363, 6325135, 6229669, 6133968, 6038037, 5941878, 5845495, 5748893, 5652074, 5555042, 5457801, 5360355,
  5262706, 5164860, 5066819, 4968587, 4870169, 4771567, 4672785, 4573827, 4474698, 4375399, 4275936, 4176312,
  4076531, 3976596, 3876512, 3776281, 3675909, 3575398, 3474752, 3373976, 3273072, 3172046, 3070900, 2969638,
  2868265, 2766783, 2665197, 2563511, 2461729, 2359854, 2257890, 2155841, 2053710, 1951503, 1849222, 1746871,
  1644455, 1541976, 1439440, 1336849, 1234209, 1131521, 1028791, 926023, 823219, 720384, 617523, 514638,
  411733, 308814, 205882, 102943, 0 >>
Cos24 == [k \in 1 .. 1024 |->
           LET m == k - 1 IN IF m <= 256 THEN Quarter[m + 1]
                             ELSE IF m <= 512 THEN 0 - Quarter[513 - m]
                             ELSE IF m <= 768 THEN 0 - Quarter[m - 511]
                             ELSE Quarter[1025 - m]]
Round(a, d) == (a + d \div 2) \div d
Cos14 == [k \in 1 .. 1024 |-> Round(Cos24[k], 1024)]
Unit1024(n) == 1024 \div n
CosAt(T, n, j) == T[((j * Unit1024(n)) % 1024) + 1]
SinAt(T, n, j) == T[((j * Unit1024(n) + 768) % 1024) + 1]
Sum(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
Mag(x) == IF x < 0 THEN 0 - x ELSE x

----
(* The transform of real sequences of n numbers: x is sparse, <<position, value>>; T a cosine table.        *)
(* forward: packed as re(0), re(n/2), re(1), im(1), ...  (exponent -2 pi i k t / n)                         *)
Forward(T, n, x) ==
  [o \in 1 .. n |->
    LET q == (o - 1) \div 2 IN
    Sum([i \in 1 .. Len(x) |->
      x[i][2] * (IF o = 1 THEN CosAt(T, n, 0)
                 ELSE IF o = 2 THEN CosAt(T, n, (x[i][1] % 2) * (n \div 2))
                 ELSE IF o % 2 = 1 THEN CosAt(T, n, (q * x[i][1]) % n)
                 ELSE 0 - SinAt(T, n, (q * x[i][1]) % n))])]
(* backward: from the packed spectrum to n times the sequence *)
Backward(T, n, x) ==
  [o \in 1 .. n |->
    Sum([i \in 1 .. Len(x) |->
      LET p == x[i][1]
          q == p \div 2
      IN x[i][2] * (IF p = 0 THEN CosAt(T, n, 0)
                    ELSE IF p = 1 THEN CosAt(T, n, ((o - 1) % 2) * (n \div 2))
                    ELSE IF p % 2 = 0 THEN 2 * CosAt(T, n, (q * (o - 1)) % n)
                    ELSE 0 - 2 * SinAt(T, n, (q * (o - 1)) % n))])]
Size1(x) == Sum([i \in 1 .. Len(x) |-> Mag(x[i][2])])

----
(* The features of one window of 400 samples at 16 kHz *)
(* Hamming window * 2^14 (symmetric), mel scale of the FFT bins and of 20 Hz and 8 kHz * 2^13 *)
Half == <<
  1311, 1312, 1314, 1319, 1326, 1334, 1344, 1356, 1370, 1386, 1404, 1424,
  1445, 1468, 1493, 1520, 1549, 1579, 1611, 1646, 1681, 1719, 1758, 1800,
  1843, 1887, 1934, 1982, 2032, 2083, 2136, 2191, 2248, 2306, 2365, 2427,
  2490, 2554, 2620, 2688, 2757, 2828, 2900, 2974, 3049, 3125, 3203, 3282,
  3363, 3445, 3529, 3613, 3699, 3787, 3875, 3965, 4056, 4148, 4242, 4336,
  4432, 4529, 4626, 4725, 4825, 4926, 5028, 5131, 5234, 5339, 5444, 5551,
  5658, 5766, 5874, 5984, 6094, 6205, 6316, 6428, 6541, 6654, 6768, 6882,
  6997, 7112, 7228, 7344, 7461, 7578, 7695, 7812, 7930, 8048, 8166, 8284,
  8403, 8521, 8640, 8758, 8877, 8996, 9114, 9233, 9351, 9470, 9588, 9706,
  9824, 9941, 10059, 10176, 10292, 10409, 10524, 10640, 10755, 10870, 10984, 11097,
  11210, 11323, 11434, 11545, 11656, 11766, 11875, 11983, 12091, 12197, 12303, 12408,
  12512, 12616, 12718, 12819, 12920, 13019, 13117, 13215, 13311, 13406, 13500, 13593,
  13684, 13775, 13864, 13952, 14038, 14124, 14208, 14291, 14372, 14452, 14531, 14608,
  14684, 14758, 14831, 14903, 14972, 15041, 15108, 15173, 15237, 15299, 15359, 15418,
  15476, 15531, 15585, 15638, 15688, 15737, 15784, 15830, 15874, 15916, 15956, 15995,
  16031, 16066, 16100, 16131, 16161, 16188, 16214, 16238, 16261, 16281, 16300, 16317,
  16331, 16345, 16356, 16365, 16373, 16378, 16382, 16384 >>
Win == Half \o [i \in 1 .. 200 |-> Half[201 - i]]
Mel == <<
  0, 403225, 789574, 1160402, 1516909, 1860160, 2191105, 2510596, 2819401, 3118209, 3407650, 3688291,
  3960652, 4225208, 4482395, 4732610, 4976223, 5213572, 5444972, 5670714, 5891068, 6106285, 6316599, 6522228,
  6723377, 6920237, 7112987, 7301795, 7486819, 7668208, 7846101, 8020632, 8191924, 8360096, 8525259, 8687520,
  8846977, 9003728, 9157862, 9309464, 9458617, 9605399, 9749884, 9892142, 10032242, 10170247, 10306220, 10440219,
  10572301, 10702520, 10830928, 10957575, 11082507, 11205772, 11327413, 11447471, 11565989, 11683004, 11798555, 11912677,
  12025406, 12136775, 12246817, 12355562, 12463042, 12569284, 12674318, 12778171, 12880868, 12982435, 13082898, 13182278,
  13280601, 13377887, 13474159, 13569437, 13663742, 13757094, 13849511, 13941012, 14031615, 14121338, 14210197, 14298209,
  14385389, 14471755, 14557320, 14642099, 14726106, 14809357, 14891863, 14973638, 15054696, 15135048, 15214706, 15293684,
  15371991, 15449640, 15526641, 15603005, 15678743, 15753864, 15828380, 15902298, 15975630, 16048383, 16120568, 16192193,
  16263266, 16333797, 16403792, 16473261, 16542211, 16610650, 16678586, 16746025, 16812975, 16879443, 16945436, 17010961,
  17076024, 17140632, 17204790, 17268506, 17331785, 17394633, 17457057, 17519061, 17580651, 17641834, 17702613, 17762995,
  17822985, 17882588, 17941808, 18000650, 18059120, 18117222, 18174961, 18232341, 18289366, 18346042, 18402371, 18458359,
  18514010, 18569327, 18624314, 18678976, 18733316, 18787339, 18841047, 18894444, 18947534, 19000321, 19052808, 19104998,
  19156895, 19208501, 19259821, 19310857, 19361612, 19412090, 19462293, 19512225, 19561889, 19611286, 19660421, 19709295,
  19757913, 19806275, 19854386, 19902247, 19949861, 19997231, 20044359, 20091248, 20137900, 20184317, 20230502, 20276457,
  20322185, 20367687, 20412966, 20458024, 20502864, 20547486, 20591894, 20636089, 20680074, 20723850, 20767420, 20810785,
  20853947, 20896909, 20939671, 20982236, 21024606, 21066782, 21108767, 21150561, 21192168, 21233587, 21274821, 21315873,
  21356742, 21397431, 21437942, 21478276, 21518434, 21558419, 21598231, 21637872, 21677343, 21716647, 21755784, 21794755,
  21833563, 21872209, 21910693, 21949018, 21987184, 22025193, 22063046, 22100745, 22138290, 22175683, 22212926, 22250018,
  22286963, 22323760, 22360411, 22396917, 22433279, 22469499, 22505577, 22541515, 22577313, 22612973, 22648496, 22683883,
  22719135, 22754252, 22789237, 22824089, 22858810, 22893401, 22927863, 22962197, 22996404, 23030485, 23064440, 23098270,
  23131978, 23165562, 23199025, 23232367 >>
MelLow == 260084
MelHigh == 23265589
Filters == 40
(* weight of FFT bin i (0-based) in filter b (1-based), * 1024: a triangle on the mel scale *)
MelW(b, i) ==
  LET d == MelHigh - MelLow
      \* 41 * (mel - left)
      a == 41 * (Mel[i + 1] - MelLow) - (b - 1) * d
  IN IF a <= 0 \/ a >= 2 * d THEN 0
     ELSE IF a <= d THEN ((a \div 41) * 1024) \div (d \div 41)
     ELSE (((2 * d - a) \div 41) * 1024) \div (d \div 41)
Support(b) == SelectSeq([i \in 1 .. 255 |-> i], LAMBDA i : MelW(b, i) > 0)
Filter == [b \in 1 .. Filters |-> LET s == Support(b) IN [j \in 1 .. Len(s) |-> <<s[j], MelW(b, s[j])>>]]

(* x: integers; the windowed samples * 40000 / 2^sh / 2 *)
Windowed(x, sh) ==
  LET S == Sum(x)
      d == [i \in 1 .. 400 |-> 400 * x[i] - S] \o <<>>
      p == [i \in 1 .. 400 |-> IF i = 1 THEN 3 * d[1] ELSE 100 * d[i] - 97 * d[i - 1]] \o <<>>
  IN [i \in 1 .. 400 |-> (Round(p[i], sh) * Win[i]) \div 32768] \o <<>>
(* real and imaginary part of bin k, * 2^4 / 2^8 more *)
ReIm(v, k) ==
  LET re == Sum([i \in 1 .. 400 |-> (v[i] * Cos14[((2 * k * (i - 1)) % 1024) + 1]) \div 1024])
      im == Sum([i \in 1 .. 400 |-> (v[i] * Cos14[((2 * k * (i - 1) + 768) % 1024) + 1]) \div 1024])
  IN <<Mag(re) \div 256, Mag(im) \div 256>>
Sq(n) == LET b == Nat2Big(n) IN Add(Mul(b, n % 32768), Mul(Mul(b, n \div 32768), 32768))
PowerOf(v, k) == LET r == ReIm(v, k) IN Add(Sq(r[1]), Sq(r[2]))
Spectrum(v) == [k \in 1 .. 255 |-> PowerOf(v, k)] \o <<>>
EnergyOf(P, b) == FoldLeft(LAMBDA acc, f : Add(acc, Mul(P[f[1]], f[2])), <<>>, Filter[b])
WeightOf(b) == Sum([j \in 1 .. Len(Filter[b]) |-> Filter[b][j][2]])
(* the observed energy (same units, decimal digits) agrees: 1/32 of it, and what the rounding of the        *)
(* integers can make of a bin (Delta units of amplitude)                                                 *)
Delta == 30
EnergyOk(obs, E, b) ==
  LET o == DigitsBig(obs, <<>>)
      abs == Mul(Nat2Big(33 * Delta * Delta), WeightOf(b))
      tol32 == Add(E, Mul(abs, 32))
  IN ~Far(Mul(o, 32), Mul(E, 32), tol32)
=============================================================================
