-------------------------------- MODULE R64 --------------------------------
(***************************************************************************)
(* IEEE 754 double precision numbers as values of the specification.       *)
(* A number is the pair <<hi, lo>> of the signed 32 bit halves of its bit  *)
(* pattern, so that = is identity of bit patterns (all NaNs are one).      *)
(* The operators are given by the Java class R64 of the same name (TLC     *)
(* operator overrides); the definitions here only fix their arities.       *)
(***************************************************************************)
EXTENDS Integers

RAdd(x, y) == CHOOSE r \in {} : TRUE
RSub(x, y) == CHOOSE r \in {} : TRUE
RMul(x, y) == CHOOSE r \in {} : TRUE
RDiv(x, y) == CHOOSE r \in {} : TRUE
RPow(x, y) == CHOOSE r \in {} : TRUE
RNeg(x)    == CHOOSE r \in {} : TRUE
RAbs(x)    == CHOOSE r \in {} : TRUE
RSqrt(x)   == CHOOSE r \in {} : TRUE
RSin(x)    == CHOOSE r \in {} : TRUE
RCos(x)    == CHOOSE r \in {} : TRUE
RTan(x)    == CHOOSE r \in {} : TRUE
RAtan(x)   == CHOOSE r \in {} : TRUE
RExp(x)    == CHOOSE r \in {} : TRUE
RLn(x)     == CHOOSE r \in {} : TRUE
RSinh(x)   == CHOOSE r \in {} : TRUE
RCosh(x)   == CHOOSE r \in {} : TRUE
RLt(x, y)  == CHOOSE r \in {} : TRUE      \* x < y, FALSE for NaN
RLe(x, y)  == CHOOSE r \in {} : TRUE      \* x <= y, FALSE for NaN
REq(x, y)  == CHOOSE r \in {} : TRUE      \* x == y as numbers, FALSE for NaN
RIsNaN(x)  == CHOOSE r \in {} : TRUE
RIsFinite(x) == CHOOSE r \in {} : TRUE
RMax(x, y) == CHOOSE r \in {} : TRUE
RMin(x, y) == CHOOSE r \in {} : TRUE
ROfInt(i)  == CHOOSE r \in {} : TRUE
ROfStr(s)  == CHOOSE r \in {} : TRUE      \* decimal literal
RToStr(x)  == CHOOSE r \in {} : TRUE
RToFloat(x) == CHOOSE r \in {} : TRUE     \* rounded to single precision
RTrunc(x)  == CHOOSE r \in {} : TRUE      \* rounded towards zero
RRnd(s, i, j) == CHOOSE r \in {} : TRUE   \* pseudo random, in [0, 1)
RndInt(s, i, j, n) == CHOOSE r \in {} : TRUE \* pseudo random, in 0..n-1
=============================================================================
