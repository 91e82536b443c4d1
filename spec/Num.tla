-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Derived arithmetic on doubles (module R64): constants, sums, complex    *)
(* numbers <<re, im>>, and comparison up to rounding.                      *)
(***************************************************************************)
EXTENDS R64, Sequences, SequencesExt

Zero == ROfInt(0)
One  == ROfInt(1)
Two  == ROfInt(2)
Half == ROfStr("0.5")
Pi   == ROfStr("3.141592653589793")
Ln10 == ROfStr("2.302585092994046")
Inf  == ROfStr("Infinity")
NaN  == ROfStr("NaN")
R(s) == ROfStr(s)
E6  == R("1e-6")
E9  == R("1e-9")
E11 == R("1e-11")
E12 == R("1e-12")
E13 == R("1e-13")
Tiny == R("1e-300")

RSum(s) == FoldLeft(RAdd, Zero, s)
RProd(s) == FoldLeft(RMul, One, s)
RMaxSeq(s) == FoldLeft(RMax, Zero, s)
RGt(x, y) == RLt(y, x)
RGe(x, y) == RLe(y, x)
RSq(x) == RMul(x, x)
RPow10(x) == RPow(ROfInt(10), x)
RIntPow(x, n) == RPow(x, ROfInt(n))
RPos(x) == RLt(Zero, x)

\* |x - y| <= tol, or both the same infinity, or both NaN
Near(x, y, tol) == \/ x = y
                   \/ REq(x, y)
                   \/ RLe(RAbs(RSub(x, y)), tol)
\* equal up to a relative error rel and an absolute error abs
Close(x, y, rel, abs) == Near(x, y, RAdd(abs, RMul(rel, RMax(RAbs(x), RAbs(y)))))

\* complex numbers
CAdd(u, v) == <<RAdd(u[1], v[1]), RAdd(u[2], v[2])>>
CSub(u, v) == <<RSub(u[1], v[1]), RSub(u[2], v[2])>>
CMul(u, v) == <<RSub(RMul(u[1], v[1]), RMul(u[2], v[2])), RAdd(RMul(u[1], v[2]), RMul(u[2], v[1]))>>
CAbs2(u) == RAdd(RMul(u[1], u[1]), RMul(u[2], u[2]))
CAbs(u) == RSqrt(CAbs2(u))
CScale(k, u) == <<RMul(k, u[1]), RMul(k, u[2])>>
CDiv(u, v) == LET d == CAbs2(v) IN
              <<RDiv(RAdd(RMul(u[1], v[1]), RMul(u[2], v[2])), d),
                RDiv(RSub(RMul(u[2], v[1]), RMul(u[1], v[2])), d)>>
CReal(x) == <<x, Zero>>
CConj(u) == <<u[1], RNeg(u[2])>>
COne == CReal(One)
CProd(s) == FoldLeft(CMul, COne, s)
CIsNaN(u) == RIsNaN(u[1]) \/ RIsNaN(u[2])
CFinite(u) == RIsFinite(u[1]) /\ RIsFinite(u[2])
CNear(u, v, tol) == RLe(CAbs(CSub(u, v)), tol)

Ints(n) == [i \in 1..n |-> i]
=============================================================================
