------------------------------- MODULE Import -------------------------------
(***************************************************************************)
(* Coefficients that are given rather than designed: SOS cascades and      *)
(* biquads.  Each call is decided to "acc", "rej" or "any" (unspecified),  *)
(* and has a value: the rows <<a0, a1, a2, b0, b1, b2>> it asks for.       *)
(***************************************************************************)
EXTENDS Num

Row(a0, a1, a2, b0, b1, b2) == <<a0, RDiv(a1, a0), RDiv(a2, a0), RDiv(b0, a0), RDiv(b1, a0), RDiv(b2, a0)>>
IdentityRow == <<One, Zero, Zero, One, Zero, Zero>>
Neg(x) == RSub(Zero, x)

HasNaN(s) == \E i \in DOMAIN s : RIsNaN(s[i])
AllFinite(s) == \A i \in DOMAIN s : RIsFinite(s[i])
IsNought(x) == REq(x, Zero)

\* a row of coefficients as given
DecideRow(s, row) == IF HasNaN(s) \/ HasNaN(row) THEN "rej"
                     ELSE IF ~AllFinite(s) \/ IsNought(s[1]) \/ ~AllFinite(row) THEN "any" ELSE "acc"

\* SOS coefficients: b0 b1 b2 a0 a1 a2, row after row
SosGiven(a, i) == LET c(k) == a[6 * (i - 1) + k] IN <<c(4), c(5), c(6), c(1), c(2), c(3)>>
SosRow(a, i) == LET s == SosGiven(a, i) IN Row(s[1], s[2], s[3], s[4], s[5], s[6])
SosRows(a) == [i \in 1..(Len(a) \div 6) |-> SosRow(a, i)]
SosDecide(a) == LET d == {DecideRow(SosGiven(a, i), SosRow(a, i)) : i \in 1..(Len(a) \div 6)}
                IN IF "rej" \in d THEN "rej" ELSE IF "any" \in d THEN "any" ELSE "acc"

\* complex arguments
Cx(a, k) == <<a[k], a[k + 1]>>
CRealNum(u) == IsNought(u[2])
CSame(u, v) == REq(u[1], v[1]) /\ REq(u[2], v[2])
RootsMatch(u, v) == IF CRealNum(u) THEN CRealNum(v) ELSE CSame(v, CConj(u))
\* -(u + v) and u v of two roots that match
RootSum(u, v) == Neg(RAdd(u[1], v[1]))
RootProd(u, v) == CMul(u, v)[1]

OneRow(p, z, s) == <<One, Neg(p), Zero, s, RMul(s, Neg(z)), Zero>>
TwoRow(p1, z1, p2, z2, s) == <<One, RootSum(p1, p2), RootProd(p1, p2), s, RMul(s, RootSum(z1, z2)), RMul(s, RootProd(z1, z2))>>
Scaled(c, s) == <<c[1], c[2], c[3], RMul(c[4], s), RMul(c[5], s), RMul(c[6], s)>>

DecideValue(a, ok, row) == IF HasNaN(a) \/ ~ok THEN "rej" ELSE IF ~AllFinite(a) \/ ~AllFinite(row) THEN "any" ELSE "acc"

\* nothing over- or underflows when it is squared or divided
NormalRow(c) == \A k \in 2..6 : IsNought(c[k]) \/ (RLt(R("1e-30"), RAbs(c[k])) /\ RLt(RAbs(c[k]), R("1e30")))

\* biquad call w with arguments a on coefficients c: <<decision, row>>
Biquad(w, a, c) ==
  CASE w = "coef" -> LET r == Row(a[1], a[2], a[3], a[4], a[5], a[6]) IN <<DecideRow(a, r), r>>
    [] w = "one"  -> LET r == OneRow(a[1], a[3], One) IN <<DecideValue(a, CRealNum(Cx(a, 1)) /\ CRealNum(Cx(a, 3)), r), r>>
    [] w = "pair1" -> LET r == OneRow(a[1], a[3], One) IN <<DecideValue(a, CRealNum(Cx(a, 1)) /\ CRealNum(Cx(a, 3)), r), r>>
    [] w \in {"two", "pair"} ->
         LET p1 == Cx(a, 1) z1 == Cx(a, 3) p2 == Cx(a, 5) z2 == Cx(a, 7)
             r == TwoRow(p1, z1, p2, z2, One)
         IN <<DecideValue(a, RootsMatch(p1, p2) /\ RootsMatch(z1, z2), r), r>>
    [] w = "scale" -> LET r == Scaled(c, a[1]) IN <<DecideRow(<<One>> \o a, r), r>>
    [] w = "id"    -> <<"acc", IdentityRow>>
    [] w = "form"  -> <<IF AllFinite(c) /\ NormalRow(c) /\ ~IsNought(c[4]) THEN "acc" ELSE "any", <<One, c[2], c[3], c[4], c[5], c[6]>>>>
    \* Custom::OnePole::setup(scale, pole, zero), Custom::TwoPole::setup(scale, rho, theta, rho, theta)
    [] w = "CO" -> LET r == OneRow(a[2], a[3], a[1]) IN <<DecideValue(a, TRUE, r), r>>
    [] w = "CT" -> LET polar(rho, th) == <<RMul(rho, RCos(th)), RMul(rho, RSin(th))>>
                       p == polar(a[2], a[3]) z == polar(a[4], a[5])
                       r == TwoRow(p, z, CConj(p), CConj(z), a[1])
                   IN <<IF RLt(a[2], Zero) \/ RLt(a[4], Zero) THEN IF HasNaN(a) THEN "rej" ELSE "any" ELSE DecideValue(a, TRUE, r), r>>

\* rows that agree up to rounding
MaxB(c) == RMax(RAbs(c[4]), RMax(RAbs(c[5]), RAbs(c[6])))
SameRow(c, d, rel) ==
  /\ Close(c[2], d[2], rel, RMul(rel, RAdd(One, RSqrt(RAbs(c[3])))))
  /\ Close(c[3], d[3], rel, RMul(rel, RAdd(One, RAbs(c[2]))))
  /\ LET m == RAdd(Tiny, RMul(rel, RMax(MaxB(c), MaxB(d)))) IN \A k \in 4..6 : Near(c[k], d[k], m)
SameRows(c, d, rel) == Len(c) = Len(d) /\ \A i \in DOMAIN c : SameRow(c[i], d[i], rel)
\* every single coefficient agrees up to rounding
ExactRow(c, d) == \A k \in 1..6 : Close(c[k], d[k], E12, Tiny)
ExactRows(c, d) == Len(c) = Len(d) /\ \A i \in DOMAIN c : ExactRow(c[i], d[i])
BitRows(c, d) == c = d
=============================================================================
