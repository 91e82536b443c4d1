-------------------------------- MODULE Args --------------------------------
(***************************************************************************)
(* Which setup calls are accepted, and what they ask for.                  *)
(* A call is made on a filter of family fam, kind kd and template order n  *)
(* (0: the default, 4) through one of the overloads                        *)
(*   "s" setup(sr, F...)    "S" setup(order, sr, F...)                     *)
(*   "n" setupN(f...)       "N" setupN(order, f...)                        *)
(* with the remaining numbers a = F, [width], [gain], [ripple].            *)
(***************************************************************************)
EXTENDS Laws

Families == {"BW", "C1", "C2"}
PoleKinds == {"LP", "HP", "BP", "BS", "LS", "HS", "BH"}
RbjKinds == {"LP", "HP", "B1", "B2", "BS", "NO", "LS", "HS", "BH", "AP"}
HasRate(ov) == ov \in {"s", "S"}
HasOrder(ov) == ov \in {"S", "N"}

TemplateOrder(n) == IF n = 0 THEN 4 ELSE n
\* number of sections with memory, and sections in use for an order
Sections(kd, n) == IF IsBand(kd) THEN n ELSE (n + 1) \div 2

\* the documented defaults of the RBJ filters' last argument
RbjDefault(kd) == CASE kd \in {"LP", "HP", "AP"} -> RDiv(One, RSqrt(Two))
                    [] kd = "NO" -> ROfInt(10)
                    [] kd \in {"LS", "HS"} -> One

\* what a call asks for; requires all arguments the overload has
Request(fam, kd, n, ov, ord, a) ==
  LET b == IF HasRate(ov) THEN [i \in 1..Len(a)-1 |-> a[i+1]] ELSE a
      norm(x) == IF HasRate(ov) THEN RDiv(x, a[1]) ELSE x
      iw == 2
      ig == IF IsBand(kd) THEN 3 ELSE 2
      ir == 2 + (IF IsBand(kd) THEN 1 ELSE 0) + (IF IsShelf(kd) THEN 1 ELSE 0)
  IN IF fam = "RBJ" THEN
       [fam |-> fam, kd |-> kd, n |-> 2, f |-> norm(b[1]), w |-> Zero,
        g |-> IF kd \in {"LS", "HS", "BH"} THEN b[2] ELSE Zero,
        r |-> IF kd \in {"LS", "HS", "BH"} THEN (IF Len(b) > 2 THEN b[3] ELSE RbjDefault(kd))
              ELSE IF Len(b) > 1 THEN b[2] ELSE RbjDefault(kd)]
     ELSE
       [fam |-> fam, kd |-> kd, n |-> IF HasOrder(ov) THEN ord ELSE TemplateOrder(n),
        f |-> norm(b[1]), w |-> IF IsBand(kd) THEN norm(b[iw]) ELSE Zero,
        g |-> IF IsShelf(kd) THEN b[ig] ELSE Zero,
        r |-> IF fam = "BW" THEN Zero ELSE b[ir]]

Within(x, lo, hi) == RLe(R(lo), x) /\ RLe(x, R(hi))

\* the argument of sinh in the band width of an RBJ band shelf
BandArg(f, bw) == LET w == RMul(RMul(Two, Pi), f) IN RDiv(RMul(RMul(RMul(Half, RLn(Two)), bw), w), RSin(w))
\* the argument of the square root in the Q of an RBJ shelf
ShelfArg(p) == LET A == RPow10(RDiv(p.g, ROfInt(40))) IN RAdd(RMul(RAdd(A, RDiv(One, A)), RSub(RDiv(One, p.r), One)), Two)
\* parameters far enough from the limits of double precision to be designed
Regular(p) ==
  /\ Within(p.f, "1e-5", "0.49999")
  /\ p.fam # "RBJ" /\ IsBand(p.kd) => Within(p.w, "1e-5", "0.49998") /\ Within(Lo(p), "1e-6", "0.5") /\ Within(Hi(p), "0", "0.499999")
  /\ p.kd \in {"LS", "HS", "BH"} => Within(p.g, "-100", "100")
  /\ p.fam \in {"C1", "C2"} => Within(p.r, "1e-4", "150")
  /\ p.fam \in {"C1", "C2"} /\ IsShelf(p.kd) => RLe(RMul(R("1.001"), p.r), RAbs(p.g))
  /\ p.fam = "RBJ" => IF p.kd \in {"LS", "HS"} THEN Within(p.r, "0.01", "1") \/ (RLt(One, p.r) /\ Within(ShelfArg(p), "0.05", "2"))
                      ELSE IF p.kd = "BH" THEN Within(p.r, "1e-3", "8") /\ RLe(BandArg(p.f, p.r), R("12")) ELSE Within(p.r, "1e-3", "1e4")

\* far enough for stability: the ripple of a shelf may exceed its gain
Solid(p) == Regular(IF p.fam \in {"C1", "C2"} /\ IsShelf(p.kd) THEN [p EXCEPT !.r = RMin(@, RMul(R("0.998"), RAbs(p.g)))] ELSE p)

\* "acc" must be accepted, "rej" must be rejected, "any" unspecified
Decide(fam, kd, n, ov, ord, a) ==
  LET p == Request(fam, kd, n, ov, ord, a)
      zeroOrder == fam # "RBJ" /\ p.n = 0
      \* next to no gain with any slope at all is next to nothing
      flat == kd \in {"LS", "HS"} /\ RLt(p.r, R("-1e6")) /\ RLt(RAbs(p.g), R("0.1"))
      bad == \/ RIsNaN(p.f) \/ ~RLt(p.f, Half) \/ RLt(p.f, Zero)
             \/ fam # "RBJ" /\ (p.n < 0 \/ p.n > TemplateOrder(n))
             \/ fam # "RBJ" /\ IsBand(kd) /\ ~RPos(p.w)
             \/ ~zeroOrder /\ (\E i \in DOMAIN a : RIsNaN(a[i]))
             \/ ~zeroOrder /\ fam \in {"C1", "C2"} /\ ~RPos(p.r)
             \/ fam = "RBJ" /\ ~RPos(p.r) /\ ~flat
      zerof == REq(p.f, Zero)
      \* a rejected frequency decides before anything else does
  IN IF bad THEN "rej" ELSE IF zerof \/ zeroOrder \/ ~Regular(p) THEN "any" ELSE "acc"
=============================================================================
