------------------------------ MODULE MC_Laws ------------------------------
(***************************************************************************)
(* The laws of Laws.tla judged by what the documentation says of the       *)
(* filters, over a grid of families, kinds, orders and parameters: one     *)
(* state each.  This is what makes "the law holds" mean what C09-C13 say.  *)
(*   Butterworth   half power at the edge, 1 in the pass band, monotonous, *)
(*                 6n dB per octave beyond it                              *)
(*   Chebyshev1    between 0 and -r dB up to the edge, r dB at the edge,   *)
(*                 monotonous below it beyond                              *)
(*   Chebyshev2    at most -r dB beyond the edge, monotonous before        *)
(*   Shelves       g dB in the shelf, at its edge half of it (Butterworth) *)
(*                 or g less r (Chebyshev), 0 dB far away                  *)
(*   Mapped        prototype frequencies and digital ones are one to one,  *)
(*                 the edges of a band are at f -+ w/2                     *)
(*   Rbj           the cookbook's gains at DC, at f, and at Nyquist        *)
(*   Judged        a low or high pass designed by hand obeys the law, and  *)
(*                 one that is off by 1e-5 is found out                    *)
(***************************************************************************)
EXTENDS Laws, TLC
CONSTANTS MaxOrder, Step    \* Step of the grid of prototype frequencies

VARIABLE p
Fams == {"BW", "C1", "C2"}
Kinds == {"LP", "HP", "BP", "BS", "LS", "HS", "BH"}
Rbjs == {"LP", "HP", "B1", "B2", "BS", "LS", "HS", "BH", "AP"}
FreqGrid == {"0.003", "0.1", "0.23", "0.3", "0.48"}
GainGrid == {"-40", "-6", "3", "24"}
Ripple(fam, kd, g) == IF fam = "BW" THEN {"0"} ELSE IF IsShelf(kd) THEN {"0.1", "2.5"} ELSE {"0.01", "1", "3", "40"}
Rec(fam, kd, n, f, g, r) ==
  [fam |-> fam, kd |-> kd, n |-> n, f |-> R(f), g |-> R(g), r |-> R(r),
   w |-> IF IsBand(kd) /\ fam # "RBJ" THEN RMul(R("0.8"), RMul(Two, RMin(R(f), RSub(Half, R(f))))) ELSE Zero]
Init == \/ \E fam \in Fams, kd \in Kinds, n \in 1..MaxOrder, f \in FreqGrid :
             \E g \in IF IsShelf(kd) THEN GainGrid ELSE {"0"} :
               \E r \in Ripple(fam, kd, g) : p = Rec(fam, kd, n, f, g, r)
        \/ \E kd \in Rbjs, f \in FreqGrid, g \in GainGrid, r \in {"0.3", "0.70710678", "1"} : p = Rec("RBJ", kd, 2, f, g, r)
Next == UNCHANGED p
Spec == Init /\ [][Next]_p

Eq(x, y) == Close(x, y, E9, E12)
Leq(x, y) == RLe(x, RAdd(RMul(y, R("1.000000001")), E12))
\* powers, in dB
Pow(db) == RPow10(RDiv(db, ROfInt(10)))
\* prototype frequencies in the pass band, and beyond
Inner == [k \in 0..Step |-> RDiv(ROfInt(k), ROfInt(Step))]
Outer == [k \in 0..Step |-> RDiv(ROfInt(Step), ROfInt(Step - k))]    \* the last one is infinite
Falling(s, upto) == \A k \in 0..(upto - 1) : Leq(Law(p, s[k + 1]), Law(p, s[k]))
Plain == p.fam # "RBJ" /\ ~IsShelf(p.kd)
Shelf == p.fam # "RBJ" /\ IsShelf(p.kd)

Butterworth == Plain /\ p.fam = "BW" =>
  /\ Eq(Law(p, Zero), One) /\ Eq(Law(p, One), Half) /\ Falling(Inner, Step) /\ Falling(Outer, Step - 1)
  /\ Eq(LawInf(p), Zero) /\ LawZero(p) = One
  \* an octave far beyond the edge: 4^-n in power
  /\ Close(RDiv(Law(p, R("2e4")), Law(p, R("1e4"))), RPow(ROfInt(4), ROfInt(-p.n)), E6, Zero)
Chebyshev1 == Plain /\ p.fam = "C1" =>
  LET floor == Pow(RNeg(p.r)) IN
  /\ Eq(Law(p, One), floor)
  /\ \A k \in 0..Step : Leq(floor, Law(p, Inner[k])) /\ Leq(Law(p, Inner[k]), One)
  /\ Falling(Outer, Step - 1)
  /\ Eq(Law(p, Zero), IF p.n % 2 = 0 THEN floor ELSE One)
  /\ Eq(LawInf(p), Zero)
  \* the ripple is there: both limits are reached in the band
  /\ p.n > 1 /\ RLt(p.r, ROfInt(4)) => \E k \in 0..Step : RLt(Law(p, Inner[k]), RAdd(floor, RMul(R("0.2"), RSub(One, floor))))
  /\ RLt(p.r, ROfInt(4)) => \E k \in 0..Step : RLt(RSub(One, RMul(R("0.2"), RSub(One, floor))), Law(p, Inner[k]))
Chebyshev2 == Plain /\ p.fam = "C2" =>
  LET roof == Pow(RNeg(p.r)) IN
  /\ Eq(Law(p, One), roof)
  /\ \A k \in 0..(Step - 1) : Leq(Law(p, Outer[k]), roof)
  /\ \A k \in 1..(Step - 1) : Leq(Law(p, Inner[k + 1]), Law(p, Inner[k])) /\ Leq(Law(p, Inner[k]), One)
  /\ LawZero(p) = One
  /\ Eq(LawInf(p), IF p.n % 2 = 0 THEN roof ELSE Zero)
Shelves == Shelf =>
  LET top == Pow(p.g)
      up == RPos(p.g)
      edge == CASE p.fam = "BW" -> Pow(RMul(Half, p.g))
                [] OTHER -> Pow(RSub(p.g, IF up THEN p.r ELSE RNeg(p.r)))
  IN /\ LawInf(p) = One
     /\ Eq(Law(p, One), edge)
     /\ p.fam = "BW" => Eq(LawZero(p), top)
     /\ \A k \in 0..Step : IF up THEN Leq(One, Law(p, Inner[k])) /\ Leq(Law(p, Inner[k]), top)
                                 ELSE Leq(Law(p, Inner[k]), One) /\ Leq(top, Law(p, Inner[k]))
Mapped == p.fam # "RBJ" =>
  /\ \A u \in {"0.01", "0.4", "1", "2.5", "60"} : LET x == R(u) IN
       /\ LET f == Unwarp(p, x) IN RLt(Zero, f) /\ RLt(f, Half) /\ Eq(Warp(p, Tan(f)), x)
       /\ IsBand(p.kd) => LET f == Unwarp(p, RNeg(x)) IN RLt(Zero, f) /\ RLt(f, Half) /\ Close(Warp(p, Tan(f)), RNeg(x), E9, Zero)
  /\ ~IsBand(p.kd) => Eq(Unwarp(p, One), p.f)
  /\ p.kd \in {"BP", "BH"} => Eq(Unwarp(p, One), Hi(p)) /\ Eq(Unwarp(p, RNeg(One)), Lo(p))
  /\ p.kd = "BS" => Eq(RMax(Unwarp(p, One), Unwarp(p, RNeg(One))), Hi(p)) /\ Eq(RMin(Unwarp(p, One), Unwarp(p, RNeg(One))), Lo(p))

At(x) == LET pr == RbjProto(p) IN CDiv(Poly(pr[1], x), Poly(pr[2], x))
Mag(x) == CAbs(At(x))
High == LET pr == RbjProto(p) IN RAbs(RDiv(pr[1][1], pr[2][1]))
Rbj == p.fam = "RBJ" =>
  LET shelf == Db(p.g) half == Db(RMul(Half, p.g)) IN
  CASE p.kd = "LP" -> Eq(Mag(Zero), One) /\ Eq(Mag(One), p.r) /\ Eq(High, Zero)
    [] p.kd = "HP" -> Eq(Mag(Zero), Zero) /\ Eq(Mag(One), p.r) /\ Eq(High, One)
    [] p.kd = "B1" -> Eq(Mag(Zero), Zero) /\ Eq(Mag(One), p.r) /\ Eq(High, Zero)
    [] p.kd = "B2" -> Eq(Mag(Zero), Zero) /\ Eq(Mag(One), One) /\ Eq(High, Zero)
    [] p.kd = "BS" -> Eq(Mag(Zero), One) /\ Eq(Mag(One), Zero) /\ Eq(High, One)
    [] p.kd = "AP" -> \A x \in {"0", "0.2", "1", "7", "1000"} : Eq(Mag(R(x)), One)
    [] p.kd = "LS" -> Eq(Mag(Zero), shelf) /\ Eq(High, One) /\ Eq(Mag(One), half)
    [] p.kd = "HS" -> Eq(Mag(Zero), One) /\ Eq(High, shelf) /\ Eq(Mag(One), half)
    [] p.kd = "BH" -> Eq(Mag(Zero), One) /\ Eq(High, One) /\ Eq(Mag(One), shelf)

(* A Butterworth low or high pass by the textbook: sections of two poles   *)
(* with Q = 1 / (2 cos a), a = the angle of the pole to the real axis, and *)
(* the bilinear transform.                                                 *)
Design ==
  LET k == Tan(p.f)
      n == p.n
      angle(i) == RMul(Pi, RDiv(ROfInt(IF n % 2 = 0 THEN 2 * i - 1 ELSE 2 * i), ROfInt(2 * n)))
      two(i) == LET q == RMul(Two, RCos(angle(i)))
                    a0 == RAdd(One, RAdd(RMul(q, k), RSq(k)))
                    a1 == RDiv(RMul(Two, RSub(RSq(k), One)), a0)
                    a2 == RDiv(RAdd(RSub(One, RMul(q, k)), RSq(k)), a0)
                    b == IF p.kd = "LP" THEN RDiv(RSq(k), a0) ELSE RDiv(One, a0)
                IN <<One, a1, a2, b, IF p.kd = "LP" THEN RMul(Two, b) ELSE RMul(ROfInt(-2), b), b>>
      a1 == RDiv(RSub(k, One), RAdd(k, One))
      b1 == IF p.kd = "LP" THEN RDiv(k, RAdd(k, One)) ELSE RDiv(One, RAdd(k, One))
      one == <<One, a1, Zero, b1, IF p.kd = "LP" THEN b1 ELSE RNeg(b1), Zero>>
  IN [i \in 1..(n \div 2) |-> two(i)] \o (IF n % 2 = 1 THEN <<one>> ELSE <<>>)
Judged == Plain /\ p.fam = "BW" /\ p.kd \in {"LP", "HP"} =>
  LET d == Design
      off(i, m) == [d EXCEPT ![i][m] = RMul(@, R("1.00001"))]
  IN /\ Stable(d) /\ LawBroken(p, d) = {}
     /\ \A i \in DOMAIN d : \A m \in {2, 4} : LawBroken(p, off(i, m)) # {}
=============================================================================
