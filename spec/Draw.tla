-------------------------------- MODULE Draw --------------------------------
(***************************************************************************)
(* Pseudo random choices, all functions of (Seed, trace i, position j), and *)
(* the calls of the public API as records, for the generators of scripts.  *)
(***************************************************************************)
EXTENDS Args, TLC
CONSTANT Seed

D(i, j) == RRnd(Seed, i, j)
DInt(i, j, n) == RndInt(Seed, i, j, n)
Pick(i, j, s) == s[1 + RndInt(Seed, i, j, Len(s))]
Chance(i, j, pct) == RndInt(Seed, i, j, 100) < pct
Between(i, j, lo, hi) == RAdd(lo, RMul(D(i, j), RSub(hi, lo)))
LogBetween(i, j, lo, hi) == RMul(RPow(lo, RSub(One, D(i, j))), RPow(hi, D(i, j)))
Sign(i, j, x) == IF Chance(i, j, 50) THEN x ELSE RNeg(x)
Mul(x, y) == RMul(x, y)

Cat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
Idx(n) == [i \in 1..n |-> i]
MapSeq(f(_), s) == [k \in DOMAIN s |-> f(s[k])]

(* ------------------------------ calls ------------------------------------ *)
New(o, fam, kd, n, st) == [e |-> "N", o |-> o, fam |-> fam, kd |-> kd, n |-> n, st |-> st, a |-> <<>>]
NewWith(o, fam, kd, n, st, a) == [e |-> "N", o |-> o, fam |-> fam, kd |-> kd, n |-> n, st |-> st, a |-> a]
Setup(o, ov, ord, a) == [e |-> "S", o |-> o, ov |-> ov, ord |-> ord, a |-> a]
Filt(o, ty, x) == [e |-> "F", o |-> o, ty |-> ty, x |-> x]
Reset(o) == [e |-> "R", o |-> o]
CopyOf(o, src) == [e |-> "C", o |-> o, src |-> src]
MoveOf(o, src) == [e |-> "M", o |-> o, src |-> src]
AssignTo(o, src) == [e |-> "A", o |-> o, src |-> src]
Kill(o) == [e |-> "D", o |-> o]
Look(o) == [e |-> "P", o |-> o]
LookAll == [e |-> "W", o |-> 0]
Respond(o, f) == [e |-> "H", o |-> o, f |-> f]
RespondStage(o, st, f) == [e |-> "h", o |-> o, st |-> st, f |-> f]
PzKept(o) == [e |-> "Z", o |-> o]
PzFound(o) == [e |-> "z", o |-> o]
FormTrip(o, st) == [e |-> "f", o |-> o, st |-> st]
Index(o, ix) == [e |-> "I", o |-> o, ix |-> ix]
Getters(o) == [e |-> "G", o |-> o]
StateGo(o, x) == [e |-> "T", o |-> o, x |-> x]
BiquadCall(o, w, a) == [e |-> "B", o |-> o, w |-> w, a |-> a]
LayNew(o, k, cap) == [e |-> "LN", o |-> o, k |-> k, cap |-> cap]
LayAdd(o, w, a) == [e |-> "LA", o |-> o, w |-> w, a |-> a]
LayGet(o, ix) == [e |-> "LG", o |-> o, ix |-> ix]
LayDesign(o, ord, a) == [e |-> "LD", o |-> o, ord |-> ord, a |-> a]
LayTrans(o, src, w, a) == [e |-> "LT", o |-> o, src |-> src, w |-> w, a |-> a]
Trace(name, ops) == [t |-> name, ops |-> ops]
ID(name, i) == name \o ToString(i)

(* ------------------------------ parameters ------------------------------- *)

PoleKindSeq == <<"LP", "HP", "BP", "BS", "LS", "HS", "BH">>
RbjKindSeq == <<"LP", "HP", "B1", "B2", "BS", "NO", "LS", "HS", "BH", "AP">>
FamSeq == <<"BW", "C1", "C2">>
StSeq == <<"D1", "D2", "T2">>
CapSeq == <<1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 20>>
SosSeq == <<1, 2, 3, 4, 5, 6, 8, 10>>
OvSeq == <<"s", "S", "n", "N">>
RateSeq == <<R("1"), R("1000"), R("44100"), R("48000"), R("8000.5"), R("0.25"), R("192000"), R("3"), R("44100.3"), R("0.1"), R("22579.2"), R("1e9")>>

\* cut off frequencies: all parts of the spectrum
FreqOf(i, j) ==
  LET k == DInt(i, j, 12) IN
  CASE k < 4 -> Between(i, j + 1, R("0.02"), R("0.24"))
    [] k < 7 -> Between(i, j + 1, R("0.25"), R("0.48"))
    [] k = 7 -> LogBetween(i, j + 1, R("0.002"), R("0.02"))
    [] k = 8 -> RSub(Half, LogBetween(i, j + 1, R("0.003"), R("0.02")))
    [] k = 9 -> LogBetween(i, j + 1, R("1.1e-5"), R("0.002"))
    [] k = 10 -> RSub(Half, LogBetween(i, j + 1, R("1.1e-5"), R("0.003")))
    [] OTHER -> Pick(i, j + 1, <<R("0.25"), R("0.125"), R("0.1"), R("0.05"), R("0.3")>>)
\* a band <<centre, width>> inside (0, 1/2)
BandOf(i, j) ==
  LET k == DInt(i, j, 12)
      \* any two edges
      edges(lo, hi) == <<RMul(Half, RAdd(lo, hi)), RSub(hi, lo)>>
      two(lo, hi, wlo, whi) == LET w == LogBetween(i, j + 2, wlo, whi) IN <<Between(i, j + 1, RAdd(lo, RMul(Half, w)), RSub(hi, RMul(Half, w))), w>>
  IN CASE k < 3 -> two(R("0.01"), R("0.25"), R("0.01"), R("0.2"))
       [] k < 5 -> two(R("0.25"), R("0.49"), R("0.01"), R("0.2"))
       [] k < 7 -> two(R("0.01"), R("0.49"), R("0.05"), R("0.45"))
       [] k = 7 -> IF Chance(i, j + 3, 40) THEN <<Pick(i, j + 1, <<R("0.25"), R("0.125"), R("0.2"), R("0.1"), R("0.3"), R("0.25"), R("0.375")>>), Pick(i, j + 2, <<R("0.05"), R("0.1"), R("0.02"), R("0.125"), R("0.15")>>)>>
                   ELSE two(R("0.05"), R("0.45"), R("0.004"), R("0.01"))
       \* one edge close to an end of the spectrum
       [] k = 8 -> edges(LogBetween(i, j + 1, R("1.1e-6"), R("0.01")), Between(i, j + 2, R("0.02"), R("0.45")))
       [] k = 9 -> edges(Between(i, j + 1, R("0.02"), R("0.45")), RSub(Half, LogBetween(i, j + 2, R("1.1e-6"), R("0.01"))))
       [] k = 10 -> edges(LogBetween(i, j + 1, R("1.1e-6"), R("0.01")), RSub(Half, LogBetween(i, j + 2, R("1.1e-6"), R("0.01"))))
       \* both edges close to an end
       [] k = 11 /\ Chance(i, j + 3, 50) -> LET a == LogBetween(i, j + 1, R("1e-5"), R("5e-3")) b == RMul(a, RAdd(One, LogBetween(i, j + 2, R("0.3"), R("10")))) IN IF Chance(i, j + 3, 25) THEN edges(a, b) ELSE edges(RSub(Half, b), RSub(Half, a))
       \* narrow
       [] OTHER -> two(R("0.001"), R("0.499"), R("2e-5"), R("0.004"))
GainOf(i, j) == IF Chance(i, j + 3, 8) THEN Pick(i, j + 2, <<Zero, One, R("-1"), R("6"), R("-6"), R("20"), R("-20"), R("0.001"), R("-0.001"), R("-0.0")>>) ELSE Sign(i, j, IF Chance(i, j + 2, 60) THEN LogBetween(i, j + 1, R("1"), R("40")) ELSE LogBetween(i, j + 1, R("0.05"), R("90")))
\* ripple below |gain|
ShelfRippleOf(i, j, g) == RMax(R("1.1e-4"), RMul(RAbs(g), CASE DInt(i, j + 1, 10) < 6 -> Between(i, j, R("0.02"), R("0.9")) [] DInt(i, j + 1, 10) = 6 -> Between(i, j, R("0.9"), R("0.998")) [] OTHER -> LogBetween(i, j, R("0.001"), R("0.99"))))
RippleOf(fam, i, j) == 
  IF Chance(i, j + 1, 60) THEN (IF fam = "C1" THEN LogBetween(i, j, R("0.05"), R("12")) ELSE LogBetween(i, j, R("3"), R("80")))
  ELSE IF fam = "C1" THEN LogBetween(i, j, R("1e-3"), R("40")) ELSE LogBetween(i, j, R("0.1"), R("140"))

\* the numbers of setupN
PoleArgs(fam, kd, i, j) ==
  LET fw == IF IsBand(kd) THEN BandOf(i, j) ELSE <<FreqOf(i, j)>>
      g == GainOf(i, j + 4)
      gs == IF IsShelf(kd) THEN <<g>> ELSE <<>>
      rs == IF fam = "BW" THEN <<>> ELSE IF IsShelf(kd) THEN <<ShelfRippleOf(i, j + 7, g)>> ELSE <<RippleOf(fam, i, j + 7)>>
  IN fw \o gs \o rs
RbjArgs(kd, i, j) ==
  LET f == FreqOf(i, j)
      g == GainOf(i, j + 4)
      q == CASE kd \in {"LS", "HS"} -> IF Chance(i, j + 8, 60) THEN Between(i, j + 7, R("0.1"), R("1")) ELSE IF Chance(i, j + 10, 60) THEN LogBetween(i, j + 7, R("0.011"), R("1")) ELSE RAdd(One, LogBetween(i, j + 7, R("1e-4"), R("1")))
             [] kd = "BH" -> LogBetween(i, j + 7, R("0.1"), R("4"))
             [] OTHER -> IF Chance(i, j + 8, 60) THEN LogBetween(i, j + 7, R("0.2"), R("20")) ELSE LogBetween(i, j + 7, R("2e-3"), R("5000"))
      hasDef == kd \in {"LP", "HP", "AP", "NO", "LS", "HS"}
  IN IF kd \in {"LS", "HS"} THEN (IF Chance(i, j + 9, 25) THEN <<f, g>> ELSE <<f, g, q>>)
     ELSE IF kd = "BH" THEN <<f, g, q>>
     ELSE IF hasDef /\ Chance(i, j + 9, 25) THEN <<f>> ELSE <<f, q>>
ArgsOf(fam, kd, i, j) == IF fam = "RBJ" THEN RbjArgs(kd, i, j) ELSE PoleArgs(fam, kd, i, j)
\* the same numbers for an overload
ForOv(fam, kd, ov, sr, a) ==
  IF ~HasRate(ov) THEN a
  ELSE <<sr>> \o [k \in DOMAIN a |-> IF k = 1 \/ (k = 2 /\ fam # "RBJ" /\ IsBand(kd)) THEN RMul(a[k], sr) ELSE a[k]]
OvFor(fam, i, j) == IF fam = "RBJ" THEN Pick(i, j, <<"s", "n">>) ELSE Pick(i, j, OvSeq)
\* an accepted setup of any overload
GoodSetup(o, fam, kd, n, i, j) ==
  LET ov == OvFor(fam, i, j)
      ord == IF HasOrder(ov) THEN 1 + DInt(i, j + 1, TemplateOrder(n)) ELSE 0
  IN Setup(o, ov, ord, ForOv(fam, kd, ov, Pick(i, j + 2, RateSeq), ArgsOf(fam, kd, i, j + 3)))
FullSetup(o, fam, kd, n, i, j) ==
  LET ov == IF fam = "RBJ" THEN Pick(i, j, <<"s", "n">>) ELSE Pick(i, j, <<"s", "n">>)
  IN Setup(o, ov, 0, ForOv(fam, kd, ov, Pick(i, j + 2, RateSeq), ArgsOf(fam, kd, i, j + 3)))

\* coefficients of a stable section b0 b1 b2 a0 a1 a2
SosSection(i, j) ==
  LET r == Between(i, j, R("0.1"), R("0.97"))
      th == RMul(Pi, D(i, j + 1))
      \* complex, real, first order, or no poles
      k == DInt(i, j + 2, 6)
      a1 == CASE k < 3 -> RMul(RNeg(Two), RMul(r, RCos(th))) [] k = 3 -> IF Chance(i, j + 18, 40) THEN Zero ELSE Between(i, j + 3, RMul(R("-0.9"), RAdd(One, RSq(r))), RMul(R("0.9"), RAdd(One, RSq(r))))
              [] k = 4 -> Sign(i, j + 3, r) [] OTHER -> Zero
      a2 == IF k < 4 THEN (IF k = 3 /\ Chance(i, j + 19, 50) /\ RLt(RAbs(a1), RMul(R("0.9"), RSub(One, RSq(r)))) THEN RNeg(RSq(r)) ELSE RSq(r)) ELSE Zero
      a0 == IF Chance(i, j + 4, 30) THEN One ELSE Sign(i, j + 5, LogBetween(i, j + 6, R("0.1"), R("10")))
      b(m) == IF Chance(i, j + 7 + m, 15) THEN Zero ELSE IF Chance(i, j + 107 + m, 6) THEN Sign(i, j + 117 + m, LogBetween(i, j + 10 + m, R("1e-20"), R("1e-4"))) ELSE Between(i, j + 10 + m, R("-2"), R("2"))
      thru == Chance(i, j + 17, 10)
      nb == IF Chance(i, j + 14, 15) THEN 1 ELSE 3
      bs == [m \in 1..3 |-> IF m <= nb THEN b(m) ELSE Zero]
      b1 == IF REq(bs[1], Zero) /\ Chance(i, j + 15, 80) THEN One ELSE bs[1]
  IN IF thru THEN <<a0, Zero, Zero, a0, Zero, Zero>> ELSE <<RMul(a0, b1), RMul(a0, bs[2]), RMul(a0, bs[3]), a0, RMul(a0, a1), RMul(a0, a2)>>
SosArgs(n, i, j) == Cat([k \in 1..n |-> SosSection(i, j + 20 * k)])
BqArgs(kd, i, j) ==
  CASE kd = "BQ" -> LET s == SosSection(i, j) IN <<s[4], s[5], s[6], s[1], s[2], s[3]>>
    [] kd = "CO" -> <<Sign(i, j, LogBetween(i, j + 1, R("0.1"), R("10"))), Between(i, j + 2, R("-0.97"), R("0.97")), Between(i, j + 3, R("-2"), R("2"))>>
    [] kd = "CT" -> <<Sign(i, j, LogBetween(i, j + 1, R("0.1"), R("10"))), Between(i, j + 2, R("0.1"), R("0.97")), RMul(Pi, Between(i, j + 3, R("-1"), R("1"))),
                      Between(i, j + 4, R("0"), R("2")), RMul(Pi, Between(i, j + 5, R("-1"), R("1")))>>

\* a type of filter <<fam, kd, n, st>>: all of them in turn, by number
PoleTypes(ns) == Cat([a \in 1..3 |-> Cat([b \in 1..7 |-> Cat([c \in 1..3 |-> [d \in DOMAIN ns |-> <<FamSeq[a], PoleKindSeq[b], ns[d], StSeq[c]>>]])])])
RbjTypes == [b \in DOMAIN RbjKindSeq |-> <<"RBJ", RbjKindSeq[b], 2, "D1">>]
SosTypes(ns) == Cat([c \in 1..3 |-> [d \in DOMAIN ns |-> <<"SOS", "SO", ns[d], StSeq[c]>>]])
BqTypes == Cat([c \in 1..3 |-> [d \in 1..3 |-> <<"BQ", <<"BQ", "CO", "CT">>[d], 1, StSeq[c]>>]])
DefTypes == Cat([a \in 1..3 |-> [b \in 1..7 |-> <<FamSeq[a], PoleKindSeq[b], 0, "DD">>]])
\* one capacity for each family, kind and state, in rotation
PoleMix(ns, shift) == LET one == PoleTypes(<<0>>) IN
  [k \in DOMAIN one |-> <<one[k][1], one[k][2], ns[1 + ((k * 7 + shift) % Len(ns))], one[k][4]>>]
AllMix(ns, shift) == PoleMix(ns, shift) \o RbjTypes \o SosTypes(<<1, 3, 4>>) \o BqTypes
Make(o, ty) == New(o, ty[1], ty[2], ty[3], ty[4])
\* an accepted setup of an object of any type
AnySetup(o, ty, i, j) ==
  CASE ty[1] \in Families \union {"RBJ"} -> GoodSetup(o, ty[1], ty[2], ty[3], i, j)
    [] ty[1] = "SOS" -> Setup(o, "s", 0, SosArgs(ty[3], i, j))
    [] OTHER -> Setup(o, "s", 0, BqArgs(ty[2], i, j))
MostSetup(o, ty, i, j) == IF ty[1] \in Families THEN FullSetup(o, ty[1], ty[2], ty[3], i, j) ELSE AnySetup(o, ty, i, j)

(* ------------------------------ signals ---------------------------------- *)
Noise(n, amp, i, j) == [k \in 1..n |-> RMul(amp, RSub(RMul(Two, RRnd(Seed + j, i, k)), One))]
Impulse(n, amp) == [k \in 1..n |-> IF k = 1 THEN amp ELSE Zero]
Steps(n, amp) == [k \in 1..n |-> amp]
Silence(n) == [k \in 1..n |-> Zero]
Sine(n, f, amp) == [k \in 1..n |-> RMul(amp, RSin(RMul(RMul(Two, Pi), RMul(f, ROfInt(k)))))]
Alternating(n, amp) == [k \in 1..n |-> IF k % 2 = 0 THEN amp ELSE RNeg(amp)]
Poison(i, j) == <<One, Pick(i, j, <<NaN, Inf, RNeg(Inf)>>), R("0.5"), Pick(i, j + 1, <<NaN, Inf, R("1e308")>>), One>>
Sparse(n, amp, i, j) == [k \in 1..n |-> IF RndInt(Seed + j, i, 7000 + k, 100) < 70 THEN Zero ELSE RMul(amp, RSub(RMul(Two, RRnd(Seed + j, i, k)), One))]
AmpOf(i, j) == IF Chance(i, j, 60) THEN Pick(i, j + 1, <<One, R("1e-3"), R("1e6"), R("32767"), R("1e-9")>>) ELSE LogBetween(i, j + 1, R("1e-200"), R("1e200"))
Signal(n, i, j) ==
  LET amp == AmpOf(i, j + 4) k == DInt(i, j + 1, 8) IN
  CASE k < 2 -> Noise(n, amp, i, j + 2) [] k = 2 -> Impulse(n, amp) [] k = 3 -> Steps(n, amp) [] k = 4 -> Sine(n, Between(i, j + 3, Zero, Half), amp)
    [] k = 5 -> Alternating(n, amp)
    [] k = 6 -> Sparse(n, amp, i, j + 2)
    [] OTHER -> Noise(n \div 3, amp, i, j + 2) \o Silence(n \div 3) \o Noise(n - 2 * (n \div 3), RMul(amp, R("1e-8")), i, j + 3)
\* whole numbers of any size
WideNoise(n, amp, i, j) == [k \in 1..n |-> RTrunc(RMul(amp, RSub(RMul(Two, RRnd(Seed + j, i, k)), One)))]
IntNoise(n, amp, i, j) == [k \in 1..n |-> ROfInt(RndInt(Seed + j, i, k, 2 * amp + 1) - amp)]
\* frequencies of the band; some are the same in every query
AgainSeq == <<R("0.1"), R("0.2"), R("0.05"), R("0.3"), R("0.25"), R("0.45")>>
Freqs(i, j, n) == <<Zero, Half>> \o [k \in 1..n |-> IF k % 2 = 0 THEN AgainSeq[1 + RndInt(Seed, i, j + k, Len(AgainSeq))]
  ELSE CASE RndInt(Seed + 1, i, j + k, 10) < 6 -> RMul(Half, D(i, j + k))
         \* close to either end
         [] RndInt(Seed + 1, i, j + k, 10) < 8 -> LogBetween(i, j + k, R("1e-9"), R("1e-2"))
         [] OTHER -> RSub(Half, LogBetween(i, j + k, R("1e-9"), R("1e-2")))]
=============================================================================
