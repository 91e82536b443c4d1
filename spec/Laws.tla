-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* What a design has to achieve: the documented response of each filter    *)
(* family and kind as a function of frequency, and stability, stated over  *)
(* the coefficient rows <<a0, a1, a2, b0, b1, b2>> (normalised) of the     *)
(* sections.  A parameter record p has fields                              *)
(*   fam  "BW" Butterworth, "C1", "C2" Chebyshev, "RBJ"                    *)
(*   kd   LP HP BP BS LS HS BH (band shelf); RBJ also B1 B2 NO AP          *)
(*   n    order                                                            *)
(*   f, w normalised cutoff/centre frequency and width of the band         *)
(*   g    gain in dB of shelves                                            *)
(*   r    ripple or attenuation in dB (Chebyshev), q/bandwidth/slope (RBJ) *)
(***************************************************************************)
EXTENDS Num

IsBand(kd)  == kd \in {"BP", "BS", "BH"}
IsShelf(kd) == kd \in {"LS", "HS", "BH"}

(* ------------------------ response of the sections ---------------------- *)

\* e^(-jw), e^(-2jw) for the normalised frequency f
Z1(f) == LET w == RMul(RMul(Two, Pi), f) IN <<RCos(w), RNeg(RSin(w))>>
SecNum(c, z1, z2) == CAdd(CReal(c[4]), CAdd(CScale(c[5], z1), CScale(c[6], z2)))
SecDen(c, z1, z2) == CAdd(COne, CAdd(CScale(c[2], z1), CScale(c[3], z2)))
SecResp(c, f) == LET z1 == Z1(f) z2 == CMul(z1, z1) IN CDiv(SecNum(c, z1, z2), SecDen(c, z1, z2))
Resp(cf, f) == LET z1 == Z1(f) z2 == CMul(z1, z1) IN
               FoldLeft(LAMBDA h, c : CMul(h, CDiv(SecNum(c, z1, z2), SecDen(c, z1, z2))), COne, cf)
\* the size the response could have without cancellation in the numerators:
\* rounding errors are small against this
RespScale(cf, f) == LET z1 == Z1(f) z2 == CMul(z1, z1) IN
  FoldLeft(LAMBDA h, c : RMul(h, RDiv(RAdd(RAbs(c[4]), RAdd(RAbs(c[5]), RAbs(c[6]))), CAbs(SecDen(c, z1, z2)))), One, cf)

\* poles strictly inside the unit circle (Schur-Cohn for a quadratic)
SecStable(c) == RLt(RAbs(c[3]), One) /\ RLt(RAbs(c[2]), RAdd(One, c[3]))
Stable(cf) == \A i \in DOMAIN cf : SecStable(cf[i])

(* ------------------------ frequency mapping ------------------------------ *)

Tan(f) == RTan(RMul(Pi, f))
FreqOfTan(t) == RDiv(RAtan(t), Pi)
Lo(p) == RSub(p.f, RMul(Half, p.w))
Hi(p) == RAdd(p.f, RMul(Half, p.w))

\* the frequency of the low pass prototype (edge at 1) seen at tan(pi f) = t
Warp(p, t) ==
  CASE p.kd \in {"LP", "LS"} -> RDiv(t, Tan(p.f))
    [] p.kd \in {"HP", "HS"} -> RDiv(Tan(p.f), t)
    [] p.kd \in {"BP", "BH"} -> LET a == Tan(Lo(p)) b == Tan(Hi(p)) IN RDiv(RSub(RMul(t, t), RMul(a, b)), RMul(RSub(b, a), t))
    [] p.kd = "BS"           -> LET a == Tan(Lo(p)) b == Tan(Hi(p)) IN RDiv(RMul(RSub(b, a), t), RSub(RMul(t, t), RMul(a, b)))

\* the frequency at which the prototype frequency u is seen
Unwarp(p, u) ==
  CASE p.kd \in {"LP", "LS"} -> FreqOfTan(RMul(u, Tan(p.f)))
    [] p.kd \in {"HP", "HS"} -> FreqOfTan(RDiv(Tan(p.f), u))
    [] p.kd \in {"BP", "BH", "BS"} ->
         LET a == Tan(Lo(p)) b == Tan(Hi(p))
             v == RMul(IF p.kd = "BS" THEN RDiv(One, u) ELSE u, RSub(b, a))
             s == RSqrt(RAdd(RMul(v, v), RMul(ROfInt(4), RMul(a, b))))
             \* the root with less cancellation
             t == IF RLe(Zero, v) THEN RMul(Half, RAdd(v, s)) ELSE RDiv(RMul(Two, RMul(a, b)), RSub(s, v))
         IN FreqOfTan(t)

(* ------------------------ prototype responses ---------------------------- *)

\* Chebyshev polynomial of order n
Cheb(n, x) == IF n = 0 THEN One ELSE
  FoldLeft(LAMBDA a, i : <<a[2], RSub(RMul(RMul(Two, x), a[2]), a[1])>>, <<One, x>>, Ints(n - 1))[2]

\* 10^(x/10) - 1 without cancellation for small x
Pow10m1(x) == LET y == RMul(x, RDiv(Ln10, ROfInt(10))) IN RMul(Two, RMul(RExp(RMul(Half, y)), RSinh(RMul(Half, y))))

Db(x) == RPow10(RDiv(x, ROfInt(20)))

\* Chebyshev shelves: edge gain and e^2
ShelfRip(p) == IF RLt(RNeg(p.g), Zero) THEN RNeg(p.r) ELSE p.r
ShelfEps2(p) == LET G == Db(RNeg(p.g)) B == Db(RSub(RNeg(p.g), ShelfRip(p)))
                IN RDiv(RSub(RSq(G), RSq(B)), RSub(RSq(B), One))

\* |H|^2 at prototype frequency u (any real number, or infinite)
Law(p, u) ==
  CASE p.fam = "BW" /\ ~IsShelf(p.kd) -> RDiv(One, RAdd(One, RIntPow(RSq(u), p.n)))
    [] p.fam = "C1" /\ ~IsShelf(p.kd) -> RDiv(One, RAdd(One, RMul(Pow10m1(p.r), RSq(Cheb(p.n, u)))))
    [] p.fam = "C2" /\ ~IsShelf(p.kd) ->
         LET t2 == RMul(RDiv(One, Pow10m1(p.r)), RSq(Cheb(p.n, RDiv(One, u)))) IN RDiv(t2, RAdd(t2, One))
    [] p.fam = "BW" /\ IsShelf(p.kd) -> LET G == Db(p.g) x == RIntPow(RSq(u), p.n) IN RDiv(RAdd(x, G), RAdd(x, RDiv(One, G)))
    [] p.fam \in {"C1", "C2"} /\ IsShelf(p.kd) ->
         LET G == Db(RNeg(p.g)) ef == RMul(ShelfEps2(p), RSq(Cheb(p.n, u))) IN RDiv(RAdd(One, ef), RAdd(RSq(G), ef))

\* |H|^2 at u -> infinity, and at u = 0 of Chebyshev II
LawInf(p) ==
  CASE IsShelf(p.kd) -> One
    [] p.fam = "C2" /\ p.n % 2 = 0 -> RDiv(One, RPow10(RDiv(p.r, ROfInt(10))))
    [] OTHER -> Zero
LawZero(p) == IF p.fam = "C2" /\ ~IsShelf(p.kd) THEN One ELSE Law(p, Zero)

\* the frequency where the gain is fixed, and the (real, positive) response there
RefFreq(p) ==
  CASE p.kd \in {"LP"} -> Zero
    [] p.kd = "HP" -> Half
    [] p.kd = "BP" -> Unwarp(p, Zero)
    [] p.kd = "BS" -> IF RLt(p.f, R("0.25")) THEN Half ELSE Zero
    [] p.kd = "LS" -> Half
    [] p.kd = "HS" -> Zero
    [] p.kd = "BH" -> IF RLt(p.f, R("0.25")) THEN Half ELSE Zero
RefGain(p) == IF IsShelf(p.kd) THEN One ELSE RSqrt(LawZero(p))

\* prototype frequencies at which the response is compared
ProtoFreqs(p) ==
  LET base == <<R("0.03"), R("0.3"), R("0.55"), R("0.8"), R("0.93"), R("0.99"), One, R("1.01"), R("1.08"), R("1.25"), R("1.7"), ROfInt(3), ROfInt(9)>>
  IN IF IsBand(p.kd) THEN base \o [i \in 1..Len(base) |-> RNeg(base[i])] ELSE base

\* relative error of the response at f that rounding the coefficients makes
Eps == R("1.2e-15")
CondAt(cf, f) == LET z1 == Z1(f) z2 == CMul(z1, z1) IN
  RMul(Eps, FoldLeft(LAMBDA k, c : RAdd(k, RDiv(RAdd(One, RAdd(RAbs(c[2]), RAbs(c[3]))), CAbs(SecDen(c, z1, z2)))), Zero, cf))
\* relative error of the edges of a band, given by centre and width
CondBand(p) == IF IsBand(p.kd) THEN RMul(Eps, RAdd(RDiv(One, RMul(Lo(p), RSub(Half, Hi(p)))), RDiv(One, p.w))) ELSE Zero
\* relative error of the gain that is fixed at the reference frequency
CondRef(p, cf) == RAdd(CondAt(cf, RefFreq(p)), RDiv(RMul(R("3e-16"), RespScale(cf, RefFreq(p))), RefGain(p)))
\* tolerance of |H|^2 = l: relative, plus the rounding noise of evaluating the sections
LawTol(p, cf, f, l) ==
  LET rel == RAdd(R("4e-9"), RAdd(RAdd(CondAt(cf, f), CondRef(p, cf)), RMul(ROfInt(p.n), CondBand(p))))
      noise == RMul(RAdd(R("3e-14"), CondBand(p)), RespScale(cf, f))
  IN RAdd(RMul(rel, l), RAdd(RMul(RMul(Two, noise), RSqrt(l)), RSq(noise)))

\* the prototype frequencies at which the law is broken by cf
LawBroken(p, cf) ==
  LET act == cf
      At(f, l) == LET h == CAbs2(Resp(act, f)) IN Near(h, l, LawTol(p, act, f, l))
      pf == ProtoFreqs(p)
      bad1 == {i \in DOMAIN pf : ~At(Unwarp(p, pf[i]), Law(p, pf[i]))}
      ends == [dc |-> At(Zero, IF p.kd \in {"LP", "LS", "BS"} THEN LawZero(p) ELSE LawInf(p)),
               ny |-> At(Half, IF p.kd \in {"HP", "HS", "BS"} THEN LawZero(p) ELSE LawInf(p)),
               ctr |-> p.kd \notin {"BP", "BH", "BS"} \/
                       At(FreqOfTan(RSqrt(RMul(Tan(Lo(p)), Tan(Hi(p))))), IF p.kd = "BS" THEN LawInf(p) ELSE LawZero(p)),
               ref |-> CNear(Resp(act, RefFreq(p)), CReal(RefGain(p)), RAdd(R("1e-8"), CondRef(p, act)))]
  IN {"u=" \o RToStr(pf[i]) : i \in bad1} \union {e \in {"dc", "ny", "ctr", "ref"} : ~ends[e]}

(* ------------------------ RBJ ------------------------------------------- *)

\* H(s) = num / den at s = jx, polynomials <<s^2, s, 1>>
Poly(c, x) == <<RSub(c[3], RMul(c[1], RSq(x))), RMul(c[2], x)>>
RbjProto(p) ==
  LET q == p.r
      A == RPow10(RDiv(p.g, ROfInt(40)))
      sA == RSqrt(A)
      iq == RDiv(One, q)
      \* 1/Q of shelves from the slope
      is == RSqrt(RAdd(RMul(RAdd(A, RDiv(One, A)), RSub(iq, One)), Two))
      w0 == RMul(RMul(Two, Pi), p.f)
      \* 1/Q of the band shelf from the bandwidth in octaves
      ib == RMul(Two, RSinh(RDiv(RMul(RMul(RMul(Half, RLn(Two)), q), w0), RSin(w0))))
  IN CASE p.kd = "LP" -> <<<<Zero, Zero, One>>, <<One, iq, One>>>>
       [] p.kd = "HP" -> <<<<One, Zero, Zero>>, <<One, iq, One>>>>
       [] p.kd = "B1" -> <<<<Zero, One, Zero>>, <<One, iq, One>>>>
       [] p.kd = "B2" -> <<<<Zero, iq, Zero>>, <<One, iq, One>>>>
       [] p.kd = "BS" -> <<<<One, Zero, One>>, <<One, iq, One>>>>
       [] p.kd = "AP" -> <<<<One, RNeg(iq), One>>, <<One, iq, One>>>>
       [] p.kd = "LS" -> <<<<A, RMul(A, RMul(sA, is)), RMul(A, A)>>, <<A, RMul(sA, is), One>>>>
       [] p.kd = "HS" -> <<<<RMul(A, A), RMul(A, RMul(sA, is)), A>>, <<One, RMul(sA, is), A>>>>
       [] p.kd = "BH" -> <<<<One, RMul(A, ib), One>>, <<One, RDiv(ib, A), One>>>>

RbjFreqs(p) == <<Zero, Half, p.f, R("0.01"), R("0.07"), R("0.137"), R("0.23"), R("0.31"), R("0.42"), R("0.487"),
                 RMul(R("0.5"), p.f), RMul(R("0.9"), p.f), RAdd(RMul(R("0.9"), p.f), R("0.05")), RAdd(RMul(R("0.5"), p.f), R("0.25"))>>

RbjBroken(p, c) ==
  IF p.kd = "NO" THEN
    LET w0 == RMul(RMul(Two, Pi), p.f)
        rr == RExp(RNeg(RDiv(RMul(Pi, p.f), p.r)))
        ok(x, y) == Near(x, y, R("1e-12"))
    IN IF ok(c[4], One) /\ ok(c[6], One) /\ ok(c[5], RNeg(RMul(Two, RCos(w0)))) /\
          ok(c[2], RNeg(RMul(RMul(Two, rr), RCos(w0)))) /\ ok(c[3], RSq(rr)) THEN {} ELSE {"notch"}
  ELSE
    LET pr == RbjProto(p)
        want(f) == IF REq(f, Half) THEN CReal(RDiv(pr[1][1], pr[2][1]))
                   ELSE LET x == RDiv(Tan(f), Tan(p.f)) IN CDiv(Poly(pr[1], x), Poly(pr[2], x))
        fs == RbjFreqs(p)
        tol(f, h) == RAdd(RMul(RAdd(R("1e-9"), CondAt(<<c>>, f)), CAbs(h)), RAdd(R("1e-12"), RMul(R("1e-13"), RespScale(<<c>>, f))))
    IN {"f=" \o RToStr(fs[i]) : i \in {j \in DOMAIN fs : LET h == want(fs[j]) IN ~CNear(Resp(<<c>>, fs[j]), h, tol(fs[j], h))}}

Broken(p, cf) == IF p.fam = "RBJ" THEN RbjBroken(p, cf[1]) ELSE LawBroken(p, cf)
=============================================================================
