-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Scripts of API calls for each property, derived from the specification: *)
(* every filter type, overload and class of arguments that Args and Life   *)
(* distinguish, with pseudo random numbers from Seed.  Size scales the     *)
(* number of traces.                                                       *)
(***************************************************************************)
EXTENDS Paths, Json
CONSTANTS Profile, Size, OutFile

Caps8 == <<1, 2, 3, 4, 5, 6, 7, 8>>
\* repeat f(rep) for rep in 1..Size
Times(f(_)) == Cat([r \in 1..Size |-> f(r)])
Per(types, f(_, _)) == [k \in DOMAIN types |-> f(types[k], k)]

(* ---- C01: output of every type ------------------------------------------ *)
C01Trace(ty, i) ==
  Trace(ID("c01.", i), <<Make(1, ty), Filt(1, "d", Noise(5, One, i, 1)), Kill(1), Make(1, ty),
     AnySetup(1, ty, i, 100), Filt(1, "d", Signal(40, i, 300)), Reset(1), Filt(1, "d", Signal(60, i, 400)), Filt(1, "d", Impulse(40, One)), Filt(1, "d", Noise(60, One, i, 500)),
     Filt(1, "d", Sine(60, Between(i, 600, Zero, Half), R("3"))), Filt(1, "d", Signal(40, i, 700)), Reset(1), Filt(1, "d", Noise(20, Pick(i, 8, <<R("1e-30"), R("1e-60"), R("1e-100"), R("1e-15"), R("1e-200")>>), i, 750)), Filt(1, "d", Silence(25)), Filt(1, "d", Sparse(60, One, i, 800)), Filt(1, "d", Signal(40, i, 900))>>)
\* the same coefficients through the three topologies
C01Forms(i) ==
  LET n == Pick(i, 1, <<1, 2, 3, 5>>) a == SosArgs(n, i, 100) x == Noise(80, One, i, 2) IN
  Trace(ID("c01f.", i), <<NewWith(1, "SOS", "SO", n, "D1", a), NewWith(2, "SOS", "SO", n, "D2", a), NewWith(3, "SOS", "SO", n, "T2", a),
     Filt(1, "d", x), Filt(2, "d", x), Filt(3, "d", x), Filt(1, "d", x), Filt(2, "d", x), Filt(3, "d", x)>> \o Cat([k \in 1..3 |-> <<Filt(k, "d", Impulse(30, One)), Filt(k, "d", Sparse(60, One, i, 5)), Reset(k), Filt(k, "d", Signal(30, i, 60))>>]))
\* long signals
LongType(k) == <<<<"BW", "LP", 2, "D1">>, <<"C1", "HP", 1, "D2">>, <<"C2", "LP", 2, "T2">>, <<"RBJ", "LP", 2, "D1">>, <<"SOS", "SO", 1, "D2">>, <<"BQ", "BQ", 1, "T2">>>>[1 + (k % 6)]
C01Long(i) ==
  LET ty == LongType(i) IN
  Trace(ID("c01l.", i), <<Make(1, ty), MostSetup(1, ty, i, 100), Filt(1, "d", Noise(20000, One, i, 2)), Filt(1, "d", Steps(15000, R("0.7"))),
                      Filt(1, "d", Noise(20000, One, i, 3)), Filt(1, "d", Sine(15000, R("0.01"), One)), Filt(1, "d", Noise(200, One, i, 3))>>)
G01 == Times(LAMBDA r : LET t == AllMix(CapSeq, r) \o SosTypes(<<10>>) IN Per(t, LAMBDA ty, k : C01Trace(ty, 1000 * r + k))) \o
       [k \in 1..(30 * Size) |-> C01Forms(k)] \o [k \in 1..(5 + Size) |-> C01Long(k)]

(* ---- C02: reset ---------------------------------------------------------- *)
C02Trace(ty, i) ==
  LET x == Noise(25, One, i, 1) IN
  Trace(ID("c02.", i), <<Make(1, ty), AnySetup(1, ty, i, 100), Filt(1, "d", Signal(30, i, 200)), Reset(1), Filt(1, "d", x), Reset(1), Reset(1), Filt(1, "d", x),
     Filt(1, "d", Poison(i, 300)), Reset(1), Look(1), Filt(1, "d", Impulse(25, One)),
     AnySetup(1, ty, i, 400), Filt(1, "d", Signal(20, i, 500)), Filt(1, "f", Noise(3, R("1e30"), i, 7)), Reset(1), Filt(1, "d", Silence(4)), Filt(1, "d", x),
     AnySetup(1, ty, i, 600), Filt(1, "d", x), Filt(1, "d", Poison(i, 700)), Reset(1), AnySetup(1, ty, i, 800), Filt(1, "d", Silence(3)), Filt(1, "d", x)>>)
\* a delay line of which only some elements are not zero: sections whose coefficients are 0, 1 or simple,
\* after an impulse of one to four samples ago
C02Sparse(st, i) ==
  LET z == Zero o == One h == Half
      \* <<a0, a1, a2, b0, b1, b2>>
      rows == <<<<o, z, z, o, z, o>>, <<o, z, z, z, z, o>>, <<o, z, z, z, o, z>>, <<o, z, z, z, o, o>>, <<o, z, z, o, o, o>>, <<o, z, z, z, z, z>>,
                <<o, h, z, o, z, z>>, <<o, z, h, o, z, z>>, <<o, z, h, z, o, z>>, <<o, h, h, z, z, o>>, <<o, z, RNeg(h), o, z, RNeg(o)>>, <<o, h, z, z, o, o>>>>
      sos(r) == <<r[4], r[5], r[6], r[1], r[2], r[3]>>
      one(k) == Cat([m \in 1..4 |-> <<Filt(1, "d", <<One>> \o Silence(m - 1)), Reset(1), Filt(1, "d", Silence(4)), Filt(1, "d", Impulse(5, One)), Reset(1)>>]) IN
  Trace(ID("c02s.", i), <<New(1, "BQ", "BQ", 1, st)>> \o Cat([k \in DOMAIN rows |-> IF (i + k) % 6 # 0 THEN <<>> ELSE <<BiquadCall(1, "coef", rows[k])>> \o one(k)]) \o
     <<NewWith(2, "SOS", "SO", 2, st, sos(rows[1 + (i % 12)]) \o sos(rows[1 + ((i \div 12) % 12)])), Filt(2, "d", <<One>> \o Silence(i % 5)), Reset(2), Filt(2, "d", Silence(5)), Filt(2, "d", Impulse(6, One))>>)
G02 == Times(LAMBDA r : LET t == AllMix(CapSeq, r) \o SosTypes(<<10>>) \o DefTypes IN Per(t, LAMBDA ty, k : C02Trace(ty, 1000 * r + k)) \o Cat([k \in 1..24 |-> <<C02Sparse("D1", 100 * r + k), C02Sparse("D2", 100 * r + 30 + 5 * k), C02Sparse("T2", 100 * r + 60 + 7 * k)>>]))

(* ---- C03: retuning a running filter -------------------------------------- *)
C03Trace(ty, i) ==
  Trace(ID("c03.", i), <<Make(1, ty), Filt(1, "d", Noise(4, One, i, 9))>> \o
     Cat([k \in 1..6 |-> <<AnySetup(1, ty, i, 100 * k), Filt(1, "d", Signal(12, i, 100 * k + 50))>>]) \o
     (IF ty[1] \in Families THEN
        Cat([k \in 1..4 |-> <<Setup(1, "N", <<1, TemplateOrder(ty[3]), 0, TemplateOrder(ty[3])>>[k], ArgsOf(ty[1], ty[2], i, 1000 + 20 * k)), Filt(1, "d", Noise(8, One, i, 3 + k))>>])
      ELSE <<>>))
\* only one parameter changes
C03Glide(ty, i) ==
  LET a == ArgsOf(ty[1], ty[2], i, 100) IN
  Trace(ID("c03g.", i), <<Make(1, ty), Setup(1, "n", 0, a), Filt(1, "d", Noise(20, One, i, 1))>> \o
     Cat([k \in 1..5 |-> <<Setup(1, "n", 0, [a EXCEPT ![1] = RMul(@, RAdd(One, RMul(ROfInt(k), R("0.001"))))]), Filt(1, "d", Noise(10, One, i, 1 + k))>>]) \o
     Cat([k \in 1..3 |-> <<Setup(1, "n", 0, a), Filt(1, "d", Noise(10, One, i, 10 + k))>>]))
G03 == Times(LAMBDA r : LET t == AllMix(CapSeq, r) \o SosTypes(<<10>>) \o DefTypes IN
         Per(t, LAMBDA ty, k : C03Trace(ty, 1000 * r + k)) \o Per(PoleMix(<<4, 5>>, r) \o RbjTypes, LAMBDA ty, k : C03Glide(ty, 1000 * r + 500 + k)))

(* ---- rejected setups ------------------------------------------------------ *)
BadFreqs == <<Half, R("0.5000001"), R("0.6"), One, R("-1e-9"), R("-0.1"), R("-0.49"), NaN, Inf, RNeg(Inf), R("12345"), R("1e308")>>
NotPositive == <<Zero, R("-0.0"), R("-1e-9"), R("-1"), NaN, R("-100")>>
\* a call that Args rejects
BadSetup(o, ty, i, j) ==
  LET fam == ty[1] kd == ty[2] n == ty[3]
      a == IF fam \in Families \union {"RBJ"} THEN ArgsOf(fam, kd, i, j + 10) ELSE <<>>
      k == DInt(i, j, 10)
      ov == OvFor(fam, i, j + 1)
      sr == Pick(i, j + 2, RateSeq)
      ord == IF HasOrder(ov) THEN DInt(i, j + 3, TemplateOrder(n)) + 1 ELSE 0
      with(m, v) == Setup(o, ov, ord, ForOv(fam, kd, ov, sr, [a EXCEPT ![m] = v]))
      badOrder == Setup(o, Pick(i, j + 4, <<"S", "N">>), Pick(i, j + 5, <<TemplateOrder(n) + 1, TemplateOrder(n) + 2, -1, 100, 2 * TemplateOrder(n) + 1, -2, -1000000, 1000000>>), <<>>)
      ordered == [badOrder EXCEPT !.a = ForOv(fam, kd, badOrder.ov, sr, a)]
      last == Len(a)
  IN CASE fam = "SOS" -> Setup(o, "s", 0, [SosArgs(n, i, j + 10) EXCEPT ![1 + DInt(i, j + 6, 6 * n)] = NaN])
       [] fam = "BQ" -> LET b == BqArgs(kd, i, j + 10) IN Setup(o, "s", 0, [b EXCEPT ![1 + DInt(i, j + 6, Len(b))] = NaN])
       [] fam \in Families \union {"RBJ"} /\ k < 3 -> with(1, Pick(i, j + 6, BadFreqs))
       [] fam \in Families \union {"RBJ"} /\ k = 3 -> Setup(o, IF HasOrder(ov) THEN "S" ELSE "s", ord, <<Pick(i, j + 6, <<NaN, Zero, R("1e-300")>>)>> \o a)
       [] fam = "RBJ" -> IF kd \in {"LS", "HS", "BH"} THEN (IF k < 7 \/ Len(a) < 3 THEN with(2, NaN) ELSE with(3, Pick(i, j + 7, NotPositive)))
                         ELSE IF Len(a) < 2 THEN with(1, Pick(i, j + 6, BadFreqs)) ELSE with(2, Pick(i, j + 7, NotPositive))
       [] fam \in Families /\ k = 4 /\ IsBand(kd) -> with(2, Pick(i, j + 7, NotPositive))
       [] fam \in Families /\ k \in {5, 4} /\ IsShelf(kd) -> with(IF IsBand(kd) THEN 3 ELSE 2, NaN)
       [] fam \in {"C1", "C2"} /\ k < 8 -> with(last, Pick(i, j + 7, NotPositive))
       [] OTHER -> ordered

(* ---- C04: only the last accepted setup counts ---------------------------- *)
Observe(o) == <<PzKept(o), PzFound(o), Respond(o, <<R("0.07"), R("0.31"), R("0.07")>>)>>
C04Step(ty, i, j) ==
  LET k == DInt(i, j, 10) s == AnySetup(1, ty, i, j + 1) IN
  IF k < 3 THEN <<BadSetup(1, ty, i, j + 1)>> ELSE
  IF k = 3 THEN <<Filt(1, "d", Noise(3, One, i, j + 60)), Reset(1)>> ELSE
  <<s>> \o (IF k = 4 THEN <<s>> ELSE <<>>) \o Observe(1) \o
  <<Make(2, ty), [s EXCEPT !.o = 2]>> \o Observe(2) \o <<Kill(2)>>
C04Walk(ty, i) == Trace(ID("c04.", i), <<Make(1, ty)>> \o Cat([k \in 1..14 |-> C04Step(ty, i, 100 * k)]))
\* argument m goes through values, all others stay; then back to the first
C04One(ty, i) ==
  LET fam == ty[1] kd == ty[2] n == ty[3]
      a == ArgsOf(fam, kd, i, 100)
      b == ArgsOf(fam, kd, i, 200)
      vary(m) == LET v == IF fam # "BW" /\ IsShelf(kd) /\ m >= Len(a) - 1
                          THEN (IF m = Len(a) THEN RMul(a[m], R("0.7")) ELSE RMul(a[m], R("1.3"))) ELSE RMul(a[m], R("0.9")) IN [a EXCEPT ![m] = v]
      \* by very little
      nudge(m, k) == [a EXCEPT ![m] = RMul(@, RSub(One, <<R("1e-3"), R("2e-5"), R("1e-7"), R("3e-8"), R("2e-9"), R("3e-10"), R("8e-11"), R("2e-11"), R("1e-10")>>[3 * k - 2 + ((i + m) % 3)]))]
      seq == Cat([m \in DOMAIN a |-> <<a, vary(m), a, nudge(m, 1), a, nudge(m, 2), nudge(m, 3), vary(m)>>]) \o (IF IsShelf(kd) THEN LET g == IF IsBand(kd) THEN 3 ELSE 2 IN <<a, [a EXCEPT ![g] = RNeg(@)], a>> ELSE <<>>) \o <<a, b, a>> \o
             \* and where very little is much
             [k \in 1..6 |-> [a EXCEPT ![Len(a)] = <<R("1e-9"), R("1.5e-9"), R("1e-6"), R("1.01e-6"), R("1e-4"), R("1.0001e-4")>>[k]]]
      ords == IF fam \in Families THEN <<TemplateOrder(n), 1, TemplateOrder(n), 0, (TemplateOrder(n) + 1) \div 2, 1, 0>> ELSE <<>>
  IN Trace(ID("c04o.", i), <<Make(1, ty)>> \o Cat([k \in DOMAIN seq |-> <<Setup(1, "n", 0, seq[k]), Make(2, ty), Setup(2, "n", 0, seq[k]), PzKept(1), Kill(2)>>]) \o
       Cat([k \in DOMAIN ords |-> <<Setup(1, "N", ords[k], a), BadSetup(1, ty, i, 300 + 20 * k), Make(2, ty), Setup(2, "N", ords[k], a), Kill(2), PzKept(2 - 1), Setup(1, "N", ords[k], a), PzKept(1)>>]))
\* a failing design, then the same or a good one
C04Fail(ty, i) ==
  LET fam == ty[1] kd == ty[2] n == TemplateOrder(ty[3])
      a == ArgsOf(fam, kd, i, 100)
      bads == <<<<"N", n + 1, a>>, <<"N", n + 1, a>>, <<"n", 0, [a EXCEPT ![Len(a)] = NaN]>>, <<"n", 0, [a EXCEPT ![Len(a)] = NaN]>>, <<"N", -1, a>>, <<"n", 0, [a EXCEPT ![1] = R("0.7")]>>,
                <<"N", n + 1, [a EXCEPT ![1] = R("0.7")]>>, <<"N", 2 * n + 3, a>>, <<"N", -3, [a EXCEPT ![1] = NaN]>>,
                <<"n", 0, [a EXCEPT ![Len(a)] = Inf]>>, <<"n", 0, [a EXCEPT ![Len(a)] = RNeg(Inf)]>>, <<"n", 0, [a EXCEPT ![Len(a)] = R("1e300")]>>, <<"n", 0, [a EXCEPT ![Len(a)] = Zero]>>,
                <<"n", 0, [a EXCEPT ![Len(a) - (IF Len(a) > 1 THEN 1 ELSE 0)] = Inf]>>, <<"n", 0, [a EXCEPT ![Len(a) - (IF Len(a) > 1 THEN 1 ELSE 0)] = Zero]>>>>
  IN Trace(ID("c04f.", i), <<Make(1, ty)>> \o Cat([k \in DOMAIN bads |-> <<Setup(1, bads[k][1], bads[k][2], bads[k][3]), Setup(1, "n", 0, a)>> \o Observe(1) \o
       <<Setup(1, bads[k][1], bads[k][2], bads[k][3]), Setup(1, bads[k][1], bads[k][2], bads[k][3]), Setup(1, "N", 1, a), PzKept(1)>>]) \o <<Make(2, ty), Setup(2, "n", 0, a), Setup(2, "N", 1, a)>>)
G04 == Times(LAMBDA r :
         LET one == PoleMix(<<4, 3, 5, 2, 6>>, r) IN
         Per(one \o RbjTypes \o DefTypes, LAMBDA ty, k : C04Walk(ty, 1000 * r + k)) \o
         Per(SelectSeq(one, LAMBDA t : t[4] = "D2") \o RbjTypes, LAMBDA ty, k : C04One(ty, 1000 * r + 300 + k)) \o
         Per(SelectSeq(one, LAMBDA t : t[4] = "D1"), LAMBDA ty, k : C04Fail(ty, 1000 * r + 500 + k)))

(* ---- C05: equivalent specifications --------------------------------------- *)
C05Pole(fam, kd, ord, i) ==
  LET a == ArgsOf(fam, kd, i, 100)
      big == <<ord + 1, 8, 12>>[1 + (i % 3)]
      cap == IF big \in {1, 2, 3, 4, 5, 6, 7, 8, 10, 12} THEN big ELSE 12
      sr(k) == Pick(i, 200 + k, RateSeq)
      sts == IF i % 2 = 0 THEN <<"D1", "D2", "T2">> ELSE <<"T2", "D1", "D2">>
      s(o, ov, k) == Setup(o, ov, ord, ForOv(fam, kd, ov, sr(k), a))
      x == Noise(10, One, i, 5)
  IN Trace(ID("c05.", i), <<New(1, fam, kd, ord, sts[1]), New(2, fam, kd, ord, sts[2]), New(3, fam, kd, cap, sts[3]), New(4, fam, kd, cap, sts[1])>> \o
       <<s(1, "n", 1), s(2, "s", 2), s(3, "N", 3), s(4, "S", 4)>> \o
       <<s(1, "S", 5), s(2, "N", 6), s(1, "s", 7), s(2, "n", 8), s(3, "S", 9), s(4, "N", 10)>> \o
       (IF ord = 4 THEN <<New(5, fam, kd, 0, "DD"), s(5, "n", 11), s(5, "s", 12), s(5, "N", 13), s(5, "S", 14), Filt(5, "d", x)>> ELSE IF ord < 4 THEN <<New(5, fam, kd, 0, "DD"), s(5, "N", 13), s(5, "S", 14), Filt(5, "d", x)>> ELSE <<>>) \o
       <<Filt(1, "d", x), Filt(2, "d", x), Filt(3, "d", x), Filt(4, "d", x)>> \o
       \* no order at all
       <<Setup(3, "N", 0, a), Setup(1, "S", 0, ForOv(fam, kd, "S", sr(9), a)), Filt(3, "d", x), Filt(1, "d", x), s(3, "N", 6), Setup(4, "S", 1, ForOv(fam, kd, "S", sr(9), a)), Filt(4, "d", x), Filt(3, "d", x)>>)
C05Rbj(kd, i) ==
  LET f == FreqOf(i, 1) g == GainOf(i, 4)
      d == IF kd \in {"LP", "HP", "AP", "NO", "LS", "HS"} THEN <<RbjDefault(kd)>> ELSE <<>>
      base == IF kd \in {"LS", "HS", "BH"} THEN <<f, g>> ELSE <<f>>
      full == IF d # <<>> THEN base \o d ELSE ArgsOf("RBJ", kd, i, 100)
      s(ov, k, a) == Setup(1, ov, 0, ForOv("RBJ", kd, ov, Pick(i, 200 + k, RateSeq), a))
      rnd == ArgsOf("RBJ", kd, i, 300)
  IN Trace(ID("c05r.", i), <<New(1, "RBJ", kd, 2, "D1"), s("n", 1, full), s("s", 2, full)>> \o (IF d # <<>> THEN <<s("n", 3, base), s("s", 4, base)>> ELSE <<>>) \o
        <<s("n", 5, rnd), s("s", 6, rnd), s("n", 7, full), s("s", 8, rnd)>>)
G05 == LET ords == Caps8 IN
       Times(LAMBDA r : Cat([a \in 1..3 |-> Cat([b \in 1..7 |-> [c \in DOMAIN ords |-> C05Pole(FamSeq[a], PoleKindSeq[b], ords[c], 10000 * r + 1000 * a + 100 * b + c)]])]) \o
                        Cat([k \in 1..3 |-> [b \in DOMAIN RbjKindSeq |-> C05Rbj(RbjKindSeq[b], 1000 * r + 100 * k + b)]]))

(* ---- C06, C07, C24: several objects ---------------------------------------- *)
\* state of the walk: function from object to "no", "new", "set"; ops so far
Query(ty, o, i, j) ==
  LET k == DInt(i, j, 9) pole == ty[1] \in Families IN
  CASE k = 0 -> Respond(o, <<R("0.2")>> \o Freqs(i, j + 1, 2) \o <<R("0.6"), R("-0.1"), R("0.2")>>)
    [] k = 1 -> IF ty[1] = "SOS" THEN Getters(o) ELSE PzKept(o)
    [] k = 2 -> PzFound(o)
    [] k = 3 -> IF pole THEN Index(o, <<0, -1, 1, 2, 99, 0>>) ELSE Getters(o)
    [] k = 4 -> Getters(o)
    [] k = 5 -> RespondStage(o, 0, <<R("0.2")>> \o Freqs(i, j + 1, 2) \o <<R("0.2")>>)
    [] k = 6 -> FormTrip(o, 0)
    [] k = 7 -> IF ty[1] = "RBJ" THEN StateGo(o, Noise(6, One, i, j)) ELSE PzFound(o)
    [] OTHER -> Look(o)
WalkStep(ty, m, st, i, j) ==
  LET o == 1 + DInt(i, j, m)
      live == {p \in 1..m : st[1][p]}
      q == IF live = {} THEN 0 ELSE CHOOSE p \in live : \A t \in live : (p + j) % (m + 1) <= (t + j) % (m + 1)
      k == DInt(i, j + 2, 100)
      add(alive, ops) == <<[p \in 1..m |-> IF p \in alive THEN TRUE ELSE FALSE], st[2] \o ops>>
  IN IF q = 0 THEN add({o}, <<Make(o, ty), AnySetup(o, ty, i, j + 10)>>)
     ELSE IF ~st[1][o] THEN
       IF k < 60 THEN add(live \union {o}, <<CopyOf(o, q)>>)
       ELSE IF k < 75 THEN add((live \union {o}) \ {q}, <<MoveOf(o, q)>>)
       ELSE add(live \union {o}, <<Make(o, ty)>>)
     ELSE CASE k < 25 -> add(live, <<Filt(o, "d", Noise(4, One, i, j))>>)
            [] k < 40 -> add(live, <<AnySetup(o, ty, i, j + 10)>>)
            [] k < 45 -> add(live, <<BadSetup(o, ty, i, j + 10)>>)
            [] k < 57 -> add(live, <<AssignTo(o, q)>>)
            [] k < 60 -> add(live, <<AssignTo(o, o)>>)
            [] k < 66 -> add(live, <<Reset(o)>>)
            [] k < 74 -> add(live \ {o}, <<Kill(o)>>)
            [] k < 82 -> add(live, <<Query(ty, o, i, j + 5)>>)
            [] OTHER -> add(live, <<LookAll>>)
Walk(name, ty, m, len, i) ==
  LET w == FoldLeft(LAMBDA st, k : WalkStep(ty, m, st, i, 200 * k), <<[p \in 1..m |-> FALSE], <<>>>>, Idx(len)) IN
  Trace(ID(name, i), w[2] \o <<LookAll>> \o Cat([p \in 1..m |-> IF w[1][p] THEN <<Filt(p, "d", Noise(6, One, i, 77))>> \o (IF ty[1] \in Families THEN <<PzFound(p), Respond(p, <<R("0.1")>>)>> ELSE <<>>) ELSE <<>>]) \o <<LookAll>>)
\* copy, then everything to one of the two
C06Pair(ty, i) ==
  LET x == Noise(6, One, i, 1) y == Noise(6, One, i, 2)
      q == <<PzFound(1), PzFound(2), Respond(1, <<R("0.11")>>), Respond(2, <<R("0.11")>>)>>
      first(o) == AnySetup(o, ty, i, 100)
      \* the same prototype at another frequency
      near(o) == LET s == first(o) k == IF HasRate(s.ov) THEN 2 ELSE 1 IN IF ty[1] \in Families THEN [s EXCEPT !.a = [@ EXCEPT ![k] = RMul(@, R("0.93"))]] ELSE s IN
  Trace(ID("c06p.", i), <<Make(1, ty), first(1), CopyOf(2, 1), near(2), LookAll, near(1), first(2), Filt(2, "d", x), MoveOf(3, 2), near(3), first(3), Make(4, ty), AssignTo(4, 3), near(4), first(4), Kill(3), near(4), PzFound(4), Filt(4, "d", x), LookAll, Kill(1), Kill(4)>> \o
    <<Make(1, ty), AnySetup(1, ty, i, 100), Filt(1, "d", x), CopyOf(2, 1), LookAll, Filt(1, "d", y), Filt(2, "d", y), LookAll>> \o q \o
     <<AnySetup(1, ty, i, 200), LookAll, Filt(2, "d", y), Filt(1, "d", y), Reset(1), Filt(2, "d", x), AnySetup(2, ty, i, 300), LookAll, Filt(1, "d", x), Reset(2), Filt(1, "d", y)>> \o q \o
     <<AssignTo(1, 2), LookAll, Filt(1, "d", x), Filt(2, "d", x), AnySetup(2, ty, i, 400), LookAll, Filt(1, "d", x), AssignTo(2, 2), LookAll, Filt(2, "d", x)>> \o q \o
     <<MoveOf(3, 2), LookAll, Filt(3, "d", y), AnySetup(3, ty, i, 500), Filt(3, "d", y), Make(4, ty), AssignTo(4, 3), Filt(4, "d", x), Kill(3), LookAll, Filt(4, "d", y), AnySetup(4, ty, i, 600), LookAll, Filt(4, "d", y), Filt(1, "d", y),
       CopyOf(5, 4), Kill(4), Filt(5, "d", y), BadSetup(5, ty, i, 700), AnySetup(5, ty, i, 800), Filt(5, "d", y), PzFound(5), LookAll>>)
G06 == Times(LAMBDA r : Per(AllMix(CapSeq, r) \o SosTypes(<<10>>) \o DefTypes, LAMBDA ty, k : C06Pair(ty, 1000 * r + k)) \o
                        Per(PoleMix(<<2, 5, 3>>, r) \o SosTypes(<<2>>) \o RbjTypes, LAMBDA ty, k : Walk("c06w.", ty, 4, 40, 1000 * r + 500 + k)))

\* objects of several types side by side
MixStep(tys, i, j) ==
  LET o == 1 + DInt(i, j, Len(tys)) k == DInt(i, j + 1, 10) ty == tys[o] IN
  CASE k < 4 -> Filt(o, Pick(i, j + 2, <<"d", "d", "f">>), Noise(4, One, i, j)) [] k < 6 -> AnySetup(o, ty, i, j + 10) [] k = 6 -> BadSetup(o, ty, i, j + 10)
    [] k = 7 -> Reset(o) [] k = 8 -> LookAll [] OTHER -> Query(ty, o, i, j + 5)
C07Mix(pool, m, len, i) ==
  LET tys == [o \in 1..m |-> pool[1 + DInt(i, o, Len(pool))]] IN
  Trace(ID("c07.", i), [o \in 1..m |-> Make(o, tys[o])] \o [o \in 1..m |-> MostSetup(o, tys[o], i, 50 * o)] \o <<LookAll>> \o
     [k \in 1..len |-> MixStep(tys, i, 1000 + 100 * k)] \o <<LookAll>> \o [o \in 1..m |-> Filt(o, "d", Noise(5, One, i, 9))])
C07Caps(i) == LET t == PoleTypes(CapSeq) ty == t[1 + ((i * 11) % Len(t))] IN
  Trace(ID("c07c.", i), <<Make(1, ty), Make(2, ty), FullSetup(1, ty[1], ty[2], ty[3], i, 100), Filt(1, "d", Noise(5, One, i, 1)), FullSetup(2, ty[1], ty[2], ty[3], i, 200), LookAll,
     PzKept(1), PzFound(1), BadSetup(1, ty, i, 400), Setup(1, "N", TemplateOrder(ty[3]) + 1, ArgsOf(ty[1], ty[2], i, 500)), Setup(1, "N", 1, ArgsOf(ty[1], ty[2], i, 600)), FullSetup(1, ty[1], ty[2], ty[3], i, 700),
     Filt(2, "d", Noise(5, One, i, 2)), CopyOf(3, 1), Filt(3, "d", Noise(5, One, i, 3)), Kill(1), Filt(3, "d", Noise(5, One, i, 4)), FullSetup(3, ty[1], ty[2], ty[3], i, 800), LookAll, Reset(3), Index(3, <<0, 1, -1, 50>>)>>)
G07 == Times(LAMBDA r : LET pool == AllMix(CapSeq, r) \o DefTypes IN
          [k \in 1..40 |-> C07Mix(pool, 5, 40, 1000 * r + k)] \o
          [k \in 1..20 |-> LET t == PoleMix(<<4, 6, 3>>, r)[1 + ((k * 5 + r) % 63)] IN C07Mix(<<t>>, 3, 30, 1000 * r + 100 + k)] \o
          [k \in 1..90 |-> C07Caps(100 * r + k)] \o
          [k \in 1..30 |-> Walk("c07w.", pool[1 + ((k * 13 + r) % Len(pool))], 4, 30, 1000 * r + 300 + k)])
\* for threads: one trace per thread, each with filters of its own
G07T == Times(LAMBDA r : LET pool == AllMix(<<4, 3, 2, 5>>, r) IN
          [k \in 1..48 |-> C07Mix(IF k % 2 = 0 THEN <<pool[1 + (k % 7)]>> ELSE pool, 3, 60, 1000 * r + k)])

(* ---- C08: heap and exceptions ------------------------------------------------ *)
C08Trace(ty, i) ==
  LET specials == <<NaN, Inf, RNeg(Inf), R("1e308"), R("5e-324"), R("-1e308"), Zero, R("1e-310")>> IN
  Trace(ID("c08.", i), <<Make(1, ty), AnySetup(1, ty, i, 100), Filt(1, "d", Noise(40, One, i, 1)), Reset(1), MostSetup(1, ty, i, 200), Filt(1, "f", Noise(10, One, i, 1)), Filt(1, "i", IntNoise(10, 1000, i, 1)),
     Filt(1, "d", specials), Filt(1, "d", Noise(10, One, i, 2)), Reset(1), BadSetup(1, ty, i, 300), AnySetup(1, ty, i, 400), Filt(1, "d", Noise(3, One, i, 2)), Filt(1, "d", Poison(i, 500)), AnySetup(1, ty, i, 600), Filt(1, "d", specials), Reset(1), CopyOf(2, 1), AssignTo(1, 2)>>)
C08Long(i) == LET ty == LongType(i) IN Trace(ID("c08l.", i), <<Make(1, ty), MostSetup(1, ty, i, 100), Filt(1, "d", Noise(70000, One, i, 2)), Filt(1, "d", Silence(3000)), Reset(1)>>)
G08 == Times(LAMBDA r : Per(AllMix(CapSeq, r) \o DefTypes \o PoleTypes(<<12, 1>>) \o SosTypes(SosSeq), LAMBDA ty, k : C08Trace(ty, 1000 * r + k)) \o [k \in 1..6 |-> C08Long(100 * r + k)])

(* ---- C09 .. C12: laws of the families ----------------------------------------- *)
LawTrace(fam, kd, n, i, reps) ==
  LET st == StSeq[1 + (i % 3)] IN
  Trace(ID("law.", i), <<New(1, fam, kd, n, st)>> \o
     Cat([k \in 1..reps |-> <<IF k % 3 = 0 /\ n > 1 THEN GoodSetup(1, fam, kd, n, i, 100 * k) ELSE FullSetup(1, fam, kd, n, i, 100 * k)>>]) \o <<Respond(1, Freqs(i, 5, 4))>>)
LawSet(fams, kds, reps) ==
  Times(LAMBDA r : Cat([a \in DOMAIN fams |-> Cat([b \in DOMAIN kds |-> [c \in DOMAIN CapSeq |-> LawTrace(fams[a], kds[b], CapSeq[c], 10000 * r + 1000 * a + 100 * b + c, reps)]])]))
G09 == LawSet(<<"BW">>, <<"LP", "HP", "BP", "BS">>, 12)
G10 == LawSet(<<"C1">>, <<"LP", "HP", "BP", "BS">>, 12)
G11 == LawSet(<<"C2">>, <<"LP", "HP", "BP", "BS">>, 12)
G12 == LawSet(FamSeq, <<"LS", "HS", "BH">>, 6)

(* ---- C13: RBJ ------------------------------------------------------------------- *)
G13 == Times(LAMBDA r : Cat([k \in 1..8 |-> [b \in DOMAIN RbjKindSeq |-> LET i == 1000 * r + 20 * k + b kd == RbjKindSeq[b] IN
         Trace(ID("c13.", i), <<New(1, "RBJ", kd, 2, "D1")>> \o [m \in 1..15 |-> GoodSetup(1, "RBJ", kd, 2, i, 100 * m)] \o <<Respond(1, Freqs(i, 5, 4))>>)]]))

(* ---- C14: stability --------------------------------------------------------------- *)
\* every corner of the parameters for the poles, damped ones for the decay
WildF(i, j) == Pick(i, j, <<R("1e-5"), R("1e-4"), R("0.001"), R("0.01"), R("0.1"), R("0.2499"), R("0.25"), R("0.2501"), R("0.4"), R("0.49"), R("0.499"), R("0.4999"), R("0.49999")>>)
WildArgs(fam, kd, i, j) ==
  LET f == IF Chance(i, j, 50) THEN WildF(i, j + 1) ELSE Between(i, j + 1, R("1e-4"), R("0.4999"))
      room == RMul(R("1.98"), RMin(f, RSub(Half, f)))
      w == RMax(R("1e-5"), RMul(room, Pick(i, j + 2, <<R("0.999"), R("0.5"), R("0.1"), R("0.01"), R("0.9")>>)))
      g == Sign(i, j + 3, LogBetween(i, j + 4, R("0.01"), R("90")))
      r == IF IsShelf(kd) THEN RMax(R("1e-4"), RMul(RAbs(g), IF Chance(i, j + 6, 25) THEN Between(i, j + 5, R("0.99"), R("4")) ELSE Between(i, j + 5, R("0.001"), R("0.998")))) ELSE LogBetween(i, j + 5, R("1e-3"), R("140"))
  IN IF fam = "RBJ" THEN
       (CASE kd \in {"LS", "HS"} -> <<f, g, Between(i, j + 6, R("0.01"), One)>> [] kd = "BH" -> <<f, g, LogBetween(i, j + 6, R("0.01"), R("6"))>>
          [] OTHER -> <<f, LogBetween(i, j + 6, R("0.01"), R("1000"))>>)
     ELSE <<f>> \o (IF IsBand(kd) THEN <<w>> ELSE <<>>) \o (IF IsShelf(kd) THEN <<g>> ELSE <<>>) \o (IF fam = "BW" THEN <<>> ELSE <<r>>)
C14Wild(ty, i) == Trace(ID("c14w.", i), <<Make(1, ty)>> \o [k \in 1..40 |-> Setup(1, "n", 0, WildArgs(ty[1], ty[2], i, 100 * k))])
\* well damped
DampSetup(o, ty, i, j) ==
  IF ty[1] = "SOS" THEN Setup(o, "s", 0, SosArgs(ty[3], i, j)) ELSE
  LET g == GainOf(i, j + 4) f == Between(i, j, R("0.1"), R("0.4")) IN
  Setup(o, "n", 0, IF ty[1] = "RBJ" THEN (CASE ty[2] \in {"LS", "HS"} -> <<f, RMul(Half, g), One>> [] ty[2] = "BH" -> <<f, RMul(R("0.2"), g), One>> [] OTHER -> <<f, LogBetween(i, j + 1, R("0.3"), R("1.5"))>>)
    ELSE (IF IsBand(ty[2]) THEN <<RAdd(R("0.2"), RMul(R("0.1"), D(i, j + 2))), Between(i, j + 3, R("0.15"), R("0.3"))>> ELSE <<f>>) \o (IF IsShelf(ty[2]) THEN <<RMul(R("0.3"), g)>> ELSE <<>>) \o
         (IF ty[1] = "BW" THEN <<>> ELSE <<IF IsShelf(ty[2]) THEN RMul(R("0.1"), RAbs(g)) ELSE IF ty[1] = "C1" THEN R("0.3") ELSE R("30")>>))
C14Decay(ty, i) == Trace(ID("c14d.", i), <<Make(1, ty), DampSetup(1, ty, i, 100), Filt(1, "d", Noise(60, One, i, 1)), Filt(1, "d", Silence(1500)),
     AnySetup(1, ty, i, 200), Filt(1, "d", Signal(60, i, 300)), Filt(1, "d", Silence(1500)), Filt(1, "d", Steps(50, One)), DampSetup(1, ty, i, 500), Filt(1, "d", Silence(1200)), Filt(1, "f", Noise(20, One, i, 2)), Filt(1, "d", Silence(1200))>>)
C14Long(i) == LET ty == LongType(i) IN Trace(ID("c14l.", i), <<Make(1, ty), MostSetup(1, ty, i, 100), Filt(1, "d", Noise(12000, One, i, 2)), Filt(1, "d", Steps(10000, One)), Filt(1, "d", Silence(45000)), Filt(1, "d", Impulse(3000, One))>>)
G14 == Times(LAMBDA r : Per(PoleMix(Caps8, r) \o RbjTypes, LAMBDA ty, k : C14Wild(ty, 1000 * r + k)) \o
                        Per(PoleMix(<<2, 4, 3, 1, 5>>, r) \o RbjTypes \o SosTypes(<<1, 3>>), LAMBDA ty, k : C14Decay(ty, 1000 * r + 200 + k)) \o [k \in 1..5 |-> C14Long(k)])

(* ---- C15: accepted and rejected ---------------------------------------------------- *)
Edges == <<Half, R("0.49999999999999994"), R("0.5000000000000001"), R("-1e-300"), R("-5e-324"), R("0.6"), R("-0.25"), NaN, Inf, RNeg(Inf), R("0.4999"), R("0.0001")>>
C15Pole(ty, i) ==
  LET fam == ty[1] kd == ty[2] n == TemplateOrder(ty[3])
      a == ArgsOf(fam, kd, i, 100)
      vals(m) == IF m = 1 THEN Edges ELSE IF m = 2 /\ IsBand(kd) THEN NotPositive \o <<R("1e-4")>>
                 ELSE IF IsShelf(kd) /\ m = (IF IsBand(kd) THEN 3 ELSE 2) THEN <<NaN, RNeg(a[m])>> ELSE NotPositive \o <<RMul(a[m], Half)>>
      ov(k) == OvSeq[1 + ((i + k) % 4)]
      call(k, b, ord) == LET o == ov(k) IN Setup(1, o, IF HasOrder(o) THEN ord ELSE 0, ForOv(fam, kd, o, Pick(i, 300 + k, RateSeq), b))
      singles == Cat([m \in DOMAIN a |-> Cat([v \in DOMAIN vals(m) |-> LET s == call(5 * m + v, [a EXCEPT ![m] = vals(m)[v]], 1 + DInt(i, 400 + v, n)) IN <<s, s>>])])
      good(k) == call(k, ArgsOf(fam, kd, i, 500 + 20 * k), 1 + DInt(i, 450 + k, n))
      ords == <<n, n + 1, n + 1, 1, -1, -1, n, n + 2, 2 * n, 2 * n + 1, 1000, -1000, n, 2147483647, -2147483647, 1>>
      orders == Cat([k \in DOMAIN ords |-> <<Setup(1, IF k % 2 = 0 THEN "S" ELSE "N", ords[k], ForOv(fam, kd, IF k % 2 = 0 THEN "S" ELSE "N", Pick(i, 600 + k, RateSeq), a))>>])
      rates == [k \in 1..6 |-> Setup(1, IF k % 2 = 0 THEN "s" ELSE "S", n, <<<<NaN, Zero, R("-1000"), Inf, R("1e-300"), NaN>>[k]>> \o a)]
      bothneg == Setup(1, "s", 0, [k \in DOMAIN ForOv(fam, kd, "s", R("1000"), a) |-> LET b == ForOv(fam, kd, "s", R("1000"), a) IN IF k <= (IF IsBand(kd) THEN 3 ELSE 2) THEN RNeg(b[k]) ELSE b[k]])
  IN Trace(ID("c15.", i), <<Make(1, ty)>> \o (IF i % 2 = 0 THEN <<good(1)>> ELSE <<>>) \o singles \o <<good(2)>> \o orders \o <<good(3)>> \o rates \o <<bothneg, good(4), good(5)>> \o
        [k \in 1..6 |-> BadSetup(1, ty, i, 2000 + 50 * k)])
C15Rbj(kd, i) ==
  LET ty == <<"RBJ", kd, 2, "D1">> a0 == ArgsOf("RBJ", kd, i, 100)
      a == IF Len(a0) = (IF kd \in {"LS", "HS"} THEN 2 ELSE 1) THEN a0 \o <<RbjDefault(kd)>> ELSE a0
      vals(m) == IF m = 1 THEN Edges ELSE IF m = 2 /\ Len(a) = 3 THEN <<NaN, RNeg(a[2])>> ELSE NotPositive \o <<RMul(a[m], Half)>>
      call(k, b) == LET o == IF k % 2 = 0 THEN "n" ELSE "s" IN Setup(1, o, 0, ForOv("RBJ", kd, o, Pick(i, 300 + k, RateSeq), b))
      short == SubSeq(a, 1, Len(a) - 1)
      hasDef == kd \in {"LP", "HP", "AP", "NO", "LS", "HS"}
  IN Trace(ID("c15r.", i), <<Make(1, ty)>> \o Cat([m \in DOMAIN a |-> Cat([v \in DOMAIN vals(m) |-> LET b == [a EXCEPT ![m] = vals(m)[v]] IN <<call(1, b), call(2, b)>>])]) \o
        (IF hasDef THEN Cat([v \in DOMAIN Edges |-> <<call(v, [short EXCEPT ![1] = Edges[v]])>>]) ELSE <<>>) \o
        <<Setup(1, "s", 0, <<NaN>> \o a), Setup(1, "s", 0, <<Zero>> \o a), call(3, a), call(4, a)>>)
C15Other(ty, i) == Trace(ID("c15o.", i), <<Make(1, ty)>> \o Cat([k \in 1..10 |-> <<BadSetup(1, ty, i, 100 * k), AnySetup(1, ty, i, 100 * k + 50)>>]))
G15 == Times(LAMBDA r : Per(PoleMix(Caps8, r), LAMBDA ty, k : C15Pole(ty, 1000 * r + k)) \o Per(DefTypes, LAMBDA ty, k : C15Pole(ty, 1000 * r + 200 + k)) \o
                        Cat([k \in 1..2 |-> Per(RbjKindSeq, LAMBDA kd, b : C15Rbj(kd, 1000 * r + 300 + 10 * k + b))]) \o Per(SosTypes(<<1, 4>>) \o BqTypes, LAMBDA ty, k : C15Other(ty, 1000 * r + 400 + k)))

(* ---- C16: rejected setups change nothing --------------------------------------------- *)
SpecialSeq == <<NaN, Inf, RNeg(Inf), Zero, R("-0.0"), One, R("-1"), Half, R("1e308"), R("-1e308"), R("5e-324"), R("1e-300"), R("0.25"), R("1e-17"), R("-0.3"), R("0.1"), R("0.4999999"), R("1e5"), R("20"), R("0.3"), R("1e-9")>>
NumArgs(ty, ov) == (CASE ty[1] = "RBJ" -> IF ty[2] \in {"LS", "HS", "BH"} THEN 3 ELSE 2
                     [] ty[1] = "SOS" -> 6 * ty[3] [] ty[1] = "BQ" -> (CASE ty[2] = "BQ" -> 6 [] ty[2] = "CO" -> 3 [] ty[2] = "CT" -> 5)
                     [] OTHER -> (IF IsBand(ty[2]) THEN 2 ELSE 1) + (IF IsShelf(ty[2]) THEN 1 ELSE 0) + (IF ty[1] = "BW" THEN 0 ELSE 1)) + (IF HasRate(ov) /\ ty[1] \in Families \union {"RBJ"} THEN 1 ELSE 0)
\* any numbers at all
WildSetup(o, ty, i, j) ==
  LET ov == IF ty[1] \in Families \union {"RBJ"} THEN OvFor(ty[1], i, j) ELSE "s"
      nice == IF ty[1] \in Families \union {"RBJ"} THEN ForOv(ty[1], ty[2], ov, One, ArgsOf(ty[1], ty[2], i, j + 30)) ELSE IF ty[1] = "SOS" THEN SosArgs(ty[3], i, j + 30) ELSE BqArgs(ty[2], i, j + 30)
      n == NumArgs(ty, ov)
      pct == Pick(i, j + 1, <<20, 50, 100>>)
      a == [k \in 1..n |-> IF k > Len(nice) \/ Chance(i, j + 100 + 2 * k, pct) THEN Pick(i, j + 101 + 2 * k, SpecialSeq) ELSE nice[k]]
      ord == Pick(i, j + 2, <<0, 1, TemplateOrder(ty[3]), TemplateOrder(ty[3]) + 1, -1, 1 + (TemplateOrder(ty[3]) \div 2)>>)
  IN Setup(o, ov, ord, a)
C16Trace(ty, i) ==
  LET look == IF ty[1] \in Families \union {"RBJ"} THEN <<Respond(1, <<R("0.1"), R("0.3")>>)>> ELSE <<>> IN
  Trace(ID("c16.", i), <<Make(1, ty)>> \o (IF i % 3 = 0 THEN <<BadSetup(1, ty, i, 50), Filt(1, "d", Noise(3, One, i, 2))>> ELSE <<>>) \o <<MostSetup(1, ty, i, 100), Filt(1, "d", Noise(10, One, i, 1))>> \o
     Cat([k \in 1..8 |-> <<BadSetup(1, ty, i, 200 * k), Filt(1, "d", Noise(4, One, i, 10 + k))>>]) \o <<Look(1)>> \o look \o
     <<AnySetup(1, ty, i, 3000), Filt(1, "d", Noise(5, One, i, 30))>> \o Cat([k \in 1..6 |-> <<BadSetup(1, ty, i, 4000 + 200 * k), Filt(1, "d", Noise(3, One, i, 40 + k))>>]) \o <<Look(1)>> \o look)
C16Wild(ty, i) == Trace(ID("c16w.", i), <<Make(1, ty), AnySetup(1, ty, i, 100)>> \o [k \in 1..40 |-> WildSetup(1, ty, i, 1000 * k)])
BiquadWild(i, j) ==
  LET v(k) == Pick(i, j + k, SpecialSeq) w == Pick(i, j, <<"coef", "one", "two", "pair", "pair1", "scale", "form", "id">>) IN
  BiquadCall(1, w, CASE w = "coef" -> [k \in 1..6 |-> v(k)] [] w \in {"one", "pair1"} -> <<v(1), IF Chance(i, j + 20, 80) THEN Zero ELSE v(2), v(3), IF Chance(i, j + 21, 80) THEN Zero ELSE v(4)>>
     [] w \in {"two", "pair"} -> (IF Chance(i, j + 22, 50) THEN <<v(1), v(2), v(3), v(4), v(1), RNeg(v(2)), v(3), RNeg(v(4))>> ELSE <<v(1), Zero, v(3), Zero, v(5), Zero, v(7), IF Chance(i, j + 23, 70) THEN Zero ELSE v(8)>>)
     [] w = "scale" -> <<v(1)>> [] OTHER -> <<>>)
C17Biquad(i) == Trace(ID("c17b.", i), <<New(1, "BQ", "BQ", 1, StSeq[1 + (i % 3)])>> \o Cat([k \in 1..40 |-> <<BiquadWild(i, 100 * k)>>]))
G16 == Times(LAMBDA r : Per(AllMix(CapSeq, r) \o DefTypes \o SosTypes(<<2, 5, 10>>), LAMBDA ty, k : C16Trace(ty, 1000 * r + k)) \o
                        Per(PoleMix(<<3, 2, 5, 4>>, r) \o RbjTypes \o SosTypes(<<1, 2, 3>>) \o BqTypes, LAMBDA ty, k : C16Wild(ty, 1000 * r + 300 + k)))
G17 == Times(LAMBDA r : Cat([q \in 1..3 |-> Per(PoleMix(Caps8, r + q) \o RbjTypes \o SosTypes(<<1, 2, 3>>) \o BqTypes \o DefTypes, LAMBDA ty, k : C16Wild(ty, 10000 * r + 1000 * q + k))]) \o [k \in 1..60 |-> C17Biquad(100 * r + k)])

(* ---- C18: response ---------------------------------------------------------------------- *)
EdgeFreqs == <<Zero, Half, R("-0.0"), R("0.49999999999999994"), R("0.5000000000000001"), R("-1e-12"), R("0.7"), R("-0.3"), R("1e-6"), Inf, RNeg(Inf)>>
C18Trace(ty, i) ==
  LET q(j) == <<Respond(1, <<R("0.15")>> \o Freqs(i, j, 6) \o <<R("0.15")>>), Respond(1, IF ty[1] \in Families THEN EdgeFreqs ELSE Freqs(i, j + 10, 4)), RespondStage(1, 0, <<R("0.15")>> \o Freqs(i, j + 20, 3)), Respond(1, <<R("0.15")>>)>>
      s == Between(i, 7, R("0.01"), R("0.4")) IN
  Trace(ID("c18.", i), <<Make(1, ty)>> \o (IF ty[1] = "RBJ" THEN <<>> ELSE q(50)) \o <<AnySetup(1, ty, i, 100)>> \o q(200) \o <<Filt(1, "d", Sine(60, s, One)), Respond(1, <<s>>), AnySetup(1, ty, i, 300)>> \o q(400) \o
     (IF ty[1] \in Families THEN <<Setup(1, "N", 1, ArgsOf(ty[1], ty[2], i, 500))>> \o q(600) \o <<Setup(1, "N", 0, ArgsOf(ty[1], ty[2], i, 700))>> \o q(800) \o <<MostSetup(1, ty, i, 900)>> \o q(950) ELSE <<>>) \o
     <<BadSetup(1, ty, i, 1000)>> \o q(1100) \o <<CopyOf(2, 1), Respond(2, Freqs(i, 1200, 3))>>)
G18 == Times(LAMBDA r : Per(AllMix(CapSeq, r) \o DefTypes \o PoleMix(<<5, 6, 8>>, r) \o SosTypes(<<2>>) \o BqTypes \o BqTypes, LAMBDA ty, k : C18Trace(ty, 1000 * r + k)))

(* ---- C19: poles and zeros ----------------------------------------------------------------- *)
Root(i, j) == LET r == Between(i, j, R("0.05"), R("1.5")) th == RMul(Pi, D(i, j + 1)) IN <<RMul(r, RCos(th)), RMul(r, RSin(th))>>
PairOf(i, j) == LET k == DInt(i, j, 5) u == Root(i, j + 1) v == Root(i, j + 3) IN
  CASE k < 2 -> <<u, CConj(u)>> [] k = 4 -> <<CReal(u[1]), CReal(RMul(u[1], RAdd(One, LogBetween(i, j + 5, R("1e-9"), R("1e-2")))))>> [] k = 2 -> <<CReal(u[1]), CReal(v[1])>> [] OTHER -> <<CReal(u[1]), CReal(u[1])>>
PzBiquad(i) ==
  Trace(ID("c19b.", i), <<New(1, "BQ", "BQ", 1, StSeq[1 + (i % 3)])>> \o
    Cat([k \in 1..10 |-> LET j == 100 * k p == PairOf(i, j) z == PairOf(i, j + 10)
          w == Pick(i, j + 20, <<"two", "two", "pair", "one", "coef", "coef", "pair1", "deg">>)
          s == Sign(i, j + 21, LogBetween(i, j + 22, R("0.01"), R("100")))
      IN <<CASE w \in {"two", "pair"} -> BiquadCall(1, w, p[1] \o z[1] \o p[2] \o z[2])
             [] w \in {"one", "pair1"} -> BiquadCall(1, w, CReal(p[1][1]) \o CReal(z[1][1]))
             [] w = "coef" -> BiquadCall(1, "coef", BqArgs("BQ", i, j + 30))
             \* zeros or poles missing
             [] w = "deg" -> BiquadCall(1, "coef", Pick(i, j + 60, <<<<One, R("-0.5"), R("0.3"), One, Half, Zero>>, <<One, R("0.5"), Zero, R("2"), Half, R("0.7")>>, <<Two, R("0.5"), Zero, R("2"), Half, Zero>>,
                                              <<One, Zero, Zero, One, Zero, Zero>>, <<R("-3"), R("0.5"), Zero, R("2"), Zero, Zero>>, <<One, Zero, R("0.25"), One, Zero, R("-0.25")>>, <<One, R("-1"), R("0.25"), One, R("2"), One>>>>)),
           IF Chance(i, j + 24, 60) THEN BiquadCall(1, "scale", <<s>>) ELSE Look(1), PzKept(1), PzFound(1), FormTrip(1, 0), BiquadCall(1, "form", <<>>), PzKept(1)>>]))
C19Trace(ty, i) ==
  LET q == (IF ty[1] = "SOS" THEN <<>> ELSE <<PzKept(1)>>) \o <<PzFound(1), FormTrip(1, 0)>> IN
  Trace(ID("c19.", i), <<Make(1, ty)>> \o Cat([k \in 1..5 |-> <<AnySetup(1, ty, i, 100 * k)>> \o q]) \o
     (IF ty[1] \in Families THEN <<MostSetup(1, ty, i, 700), FormTrip(1, (Sections(ty[2], TemplateOrder(ty[3])) - 1))>> \o q \o <<Setup(1, "N", 1, ArgsOf(ty[1], ty[2], i, 800))>> \o q ELSE <<>>) \o <<CopyOf(2, 1)>> \o (IF ty[1] = "SOS" THEN <<>> ELSE <<PzKept(2)>>) \o <<PzFound(2)>>)
G19 == Times(LAMBDA r : Per(AllMix(Caps8, r) \o PoleMix(<<1, 3, 5, 7>>, r) \o DefTypes \o SosTypes(<<2, 5>>), LAMBDA ty, k : C19Trace(ty, 1000 * r + k)) \o [k \in 1..60 |-> PzBiquad(100 * r + k)])

(* ---- C20: import ---------------------------------------------------------------------------- *)
SosFree(n, i, j) == [k \in 1..(6 * n) |-> IF (k - 1) % 6 = 3 THEN Sign(i, j + 3 * k, LogBetween(i, j + 3 * k + 1, R("0.01"), R("100"))) ELSE LET c == DInt(i, j + 3 * k, 20) IN
                                       CASE c < 3 -> Zero [] c = 3 -> Sign(i, j + 3 * k + 2, LogBetween(i, j + 3 * k + 1, R("1e-25"), R("1e-6"))) [] c = 4 -> Sign(i, j + 3 * k + 2, LogBetween(i, j + 3 * k + 1, R("1e3"), R("1e20")))
                                         [] OTHER -> Between(i, j + 3 * k + 1, R("-3"), R("3"))]
C20Sos(n, st, i) ==
  LET a == SosArgs(n, i, 100) b == SosArgs(n, i, 2000) x == Noise(20, One, i, 1) IN
  Trace(ID("c20.", i), <<New(1, "SOS", "SO", n, st), Filt(1, "d", x), NewWith(2, "SOS", "SO", n, st, a), Filt(2, "d", x), Getters(2), Setup(1, "s", 0, b), Filt(1, "d", x), Getters(1), Setup(1, "s", 0, a), Filt(1, "d", x), Look(1),
     Setup(2, "s", 0, SosFree(n, i, 4000)), Getters(2), Look(2), Setup(2, "s", 0, SosFree(n, i, 6000)), RespondStage(2, n - 1, Freqs(i, 5, 2)),
     NewWith(3, "SOS", "SO", n, st, SosFree(n, i, 8000)), Getters(3), NewWith(4, "SOS", "SO", n, st, [a EXCEPT ![1 + DInt(i, 9, 6 * n)] = NaN])>>)
\* roots that match up to a little, or that match in all but one respect
NearPairs(i, j) ==
  LET u == Root(i, j) t == LogBetween(i, j + 5, R("1e-15"), R("1e-3")) c == CReal(R("0.5"))
      off(v) == Pick(i, j + 6, <<<<RMul(v[1], RAdd(One, t)), v[2]>>, <<v[1], RMul(v[2], RAdd(One, t))>>, <<v[1], RNeg(v[2])>>, <<RNeg(v[1]), v[2]>>, <<v[1], Zero>>>>)
      near == off(CConj(u)) im == Pick(i, j + 7, <<t, RNeg(t), R("5e-324"), R("-5e-324"), R("-0.3"), R("0.3")>>) nr == <<Half, im>> IN
  <<BiquadCall(1, "two", u \o c \o near \o c), BiquadCall(1, "two", c \o u \o c \o near), BiquadCall(1, "pair", u \o c \o near \o c),
    BiquadCall(1, "two", c \o c \o nr \o c), BiquadCall(1, "two", c \o c \o c \o nr), BiquadCall(1, "two", nr \o c \o c \o c), BiquadCall(1, "two", c \o nr \o c \o c),
    BiquadCall(1, "one", nr \o c), BiquadCall(1, "one", c \o nr), BiquadCall(1, "two", u \o u \o CConj(u) \o near), BiquadCall(1, "two", near \o c \o u \o c)>>
BqGood(i, j) ==
  LET p == PairOf(i, j) z == PairOf(i, j + 10) w == Pick(i, j + 20, <<"two", "two", "pair", "one", "coef", "pair1", "scale", "id", "bad", "bad">>) IN
  CASE w \in {"two", "pair"} -> BiquadCall(1, w, p[1] \o z[1] \o p[2] \o z[2])
    [] w \in {"one", "pair1"} -> BiquadCall(1, w, CReal(p[1][1]) \o CReal(z[1][1]))
    [] w = "coef" -> BiquadCall(1, w, LET s == SosFree(1, i, j + 30) IN <<s[4], s[5], s[6], s[1], s[2], s[3]>>)
    [] w = "scale" -> BiquadCall(1, w, <<Sign(i, j + 21, LogBetween(i, j + 22, R("0.1"), R("10")))>>)
    [] w = "id" -> BiquadCall(1, w, <<>>)
    [] w = "bad" -> LET u == <<R("0.3"), R("0.4")>> v == <<R("0.3"), R("-0.2")>> c == CReal(R("0.5")) IN
         Pick(i, j + 23, NearPairs(i, j + 40) \o <<BiquadCall(1, "one", u \o c), BiquadCall(1, "one", c \o u), BiquadCall(1, "two", u \o c \o u \o c), BiquadCall(1, "two", u \o c \o v \o c), BiquadCall(1, "two", c \o c \o u \o c),
            BiquadCall(1, "two", u \o c \o c \o c), BiquadCall(1, "two", c \o u \o c \o v), BiquadCall(1, "two", c \o u \o c \o u), BiquadCall(1, "two", c \o c \o c \o u), BiquadCall(1, "two", c \o u \o c \o c), BiquadCall(1, "pair", c \o u \o c \o v),
            BiquadCall(1, "pair", u \o c \o v \o c), BiquadCall(1, "pair1", u \o c), BiquadCall(1, "pair1", c \o u), BiquadCall(1, "two", u \o u \o CConj(u) \o v)>>)
C20Bq(st, i) == Trace(ID("c20b.", i), <<New(1, "BQ", "BQ", 1, st)>> \o Cat([k \in 1..25 |-> <<BqGood(i, 100 * k)>> \o (IF k % 4 = 0 THEN <<Filt(1, "d", Noise(6, One, i, k)), Reset(1), Getters(1)>> ELSE <<>>)]))
C20Custom(kd, st, i) == Trace(ID("c20c.", i), <<New(1, "BQ", kd, 1, st)>> \o Cat([k \in 1..12 |-> <<Setup(1, "s", 0, BqArgs(kd, i, 100 * k)), Filt(1, "d", Noise(6, One, i, k)), Reset(1)>>]))
G20 == Times(LAMBDA r : Cat([c \in 1..3 |-> Cat([n \in DOMAIN SosSeq |-> [k \in 1..3 |-> C20Sos(SosSeq[n], StSeq[c], 1000 * r + 100 * c + 10 * n + k)]])]) \o
                        Cat([c \in 1..3 |-> [k \in 1..20 |-> C20Bq(StSeq[c], 1000 * r + 100 * c + k)]]) \o
                        Cat([c \in 1..3 |-> Cat([k \in 1..5 |-> <<C20Custom("CO", StSeq[c], 1000 * r + 100 * c + k), C20Custom("CT", StSeq[c], 1000 * r + 100 * c + 50 + k)>>])]))

(* ---- C21: sample types ------------------------------------------------------------------------ *)
C21Trace(ty, i) ==
  LET seg(j) == LET t == Pick(i, j, <<"d", "f", "i", "s", "l", "b", "l", "i">>) IN
        CASE t = "d" -> Filt(1, "d", Noise(8, R("10"), i, j)) [] t = "f" -> Filt(1, "f", Noise(12, Pick(i, j + 1, <<One, R("1e-6"), R("1000"), R("1e30"), R("1e-25")>>), i, j))
          [] t = "b" -> Filt(1, "b", IntNoise(12, 20, i, j)) [] t = "s" -> Filt(1, "s", IntNoise(12, 1000, i, j)) [] t = "i" -> Filt(1, "i", WideNoise(12, Pick(i, j + 1, <<R("3"), R("100"), R("1e6"), R("2e9"), R("2147483647")>>), i, j))
          [] OTHER -> Filt(1, "l", WideNoise(12, Pick(i, j + 1, <<R("100"), R("1e7"), R("3e9"), R("1e12"), R("1e15"), R("4e18")>>), i, j))
      pure(t) == <<Reset(1), Filt(1, t, IntNoise(40, IF t = "b" THEN 15 ELSE 500, i, 5)), Filt(1, t, Silence(20)), Filt(1, t, Impulse(30, ROfInt(IF t = "b" THEN 30 ELSE 1000)))>> IN
  Trace(ID("c21.", i), <<Make(1, ty), AnySetup(1, ty, i, 100)>> \o [k \in 1..8 |-> seg(200 + 20 * k)] \o pure("i") \o pure("f") \o pure("s") \o pure("b") \o <<AnySetup(1, ty, i, 600)>> \o pure("l") \o [k \in 1..4 |-> seg(800 + 20 * k)])
G21 == Times(LAMBDA r : Per(AllMix(CapSeq, r) \o SosTypes(<<10>>) \o DefTypes, LAMBDA ty, k : C21Trace(ty, 1000 * r + k)))

(* ---- C22: layouts ------------------------------------------------------------------------------- *)
LayOp(i, j) ==
  LET k == DInt(i, j, 20) u == Root(i, j + 1) v == Root(i, j + 3) c == CReal(u[1]) d == CReal(v[1]) nan == <<NaN, Zero>> nan2 == <<R("0.5"), NaN>> zero == CReal(Zero) IN
  CASE k < 4 -> LayAdd(1, "conj", u \o v)
    [] k < 6 -> LayAdd(1, "one", c \o d)
    [] k = 6 -> LayAdd(1, "pair", c \o d \o d \o c)
    [] k = 7 -> LayAdd(1, "pair", u \o CConj(u) \o v \o CConj(v))
    [] k = 8 -> LayAdd(1, "pair", u \o CConj(u) \o c \o d)
    [] k = 9 -> Pick(i, j + 5, <<LayAdd(1, "one", nan \o d), LayAdd(1, "one", c \o nan), LayAdd(1, "conj", nan \o d), LayAdd(1, "conj", u \o nan), LayAdd(1, "conj", nan2 \o v), LayAdd(1, "conj", u \o nan2)>>)
    [] k = 10 -> Pick(i, j + 5, <<LayAdd(1, "pair", nan \o nan \o c \o d), LayAdd(1, "pair", c \o d \o nan \o d), LayAdd(1, "pair", c \o d \o d \o nan), LayAdd(1, "pair", c \o nan \o d \o c), LayAdd(1, "pair", nan2 \o CConj(nan2) \o c \o d)>>)
    [] k = 11 -> Pick(i, j + 5, <<LayAdd(1, "pair", u \o u \o v \o CConj(v)), LayAdd(1, "pair", u \o CConj(u) \o v \o v), LayAdd(1, "pair", u \o c \o v \o CConj(v)), LayAdd(1, "pair", c \o u \o v \o CConj(v)), LayAdd(1, "pair", c \o d \o c \o v)>>)
    [] k = 12 -> Pick(i, j + 5, <<LayAdd(1, "one", u \o d), LayAdd(1, "one", c \o v), LayAdd(1, "pair", zero \o c \o d \o c), LayAdd(1, "pair", c \o zero \o d \o c), LayAdd(1, "pair", c \o d \o zero \o c), LayAdd(1, "pair", c \o d \o d \o zero)>>)
    [] k = 13 -> IF Chance(i, j + 8, 30) THEN LayAdd(1, "reset", <<>>) ELSE IF Chance(i, j + 10, 20) THEN LayAdd(1, "store", <<ROfInt(DInt(i, j + 11, 9))>>) ELSE
         LET t == LogBetween(i, j + 9, R("1e-15"), R("1e-3")) n == <<u[1], RMul(RNeg(u[2]), RAdd(One, t))>> m == <<RMul(v[1], RAdd(One, t)), RNeg(v[2])>> im == <<u[1], t>> jm == <<u[1], R("-5e-324")>> IN
         Pick(i, j + 5, <<LayAdd(1, "pair", u \o n \o v \o CConj(v)), LayAdd(1, "pair", u \o CConj(u) \o v \o m), LayAdd(1, "pair", n \o u \o c \o d), LayAdd(1, "pair", c \o im \o c \o d), LayAdd(1, "pair", c \o d \o c \o jm),
            LayAdd(1, "pair", im \o c \o c \o d), LayAdd(1, "one", im \o d), LayAdd(1, "one", c \o jm)>>)
    [] k = 14 -> LayAdd(1, "normal", <<D(i, j + 6), D(i, j + 7)>>)
    [] k = 15 -> LayAdd(1, "conj", u \o <<Inf, Zero>>)
    [] k = 16 -> LayAdd(1, "conj", c \o d)
    [] OTHER -> LayGet(1, <<0, 1, 2, -1, 7, DInt(i, j + 5, 12), 100, -2147483647>>)
C22Trace(cap, i) == Trace(ID("c22.", i), <<LayNew(1, "LB", cap)>> \o [k \in 1..40 |-> LayOp(i, 100 * k)])
\* fill to the brim and beyond
C22Fill(cap, i) == LET u(k) == Root(i, 10 * k) c == CReal(R("0.3")) IN
  Trace(ID("c22f.", i), <<LayNew(1, "LB", cap)>> \o [k \in 1..(cap \div 2) |-> IF k % 2 = 0 THEN LayAdd(1, "conj", u(k) \o u(k + 50)) ELSE LayAdd(1, "pair", u(k) \o CConj(u(k)) \o u(k + 50) \o CConj(u(k + 50)))] \o
     <<LayAdd(1, "conj", u(1) \o u(2)), LayGet(1, <<0, -1, cap \div 2, (cap \div 2) - 1, (cap + 1) \div 2>>), LayAdd(1, "pair", c \o c \o c \o c), LayAdd(1, "one", c \o c), LayAdd(1, "one", c \o c), LayAdd(1, "conj", u(3) \o u(4)),
       LayGet(1, <<0, cap \div 2, (cap + 1) \div 2, (cap + 1) \div 2 - 1>>), LayAdd(1, "reset", <<>>), LayGet(1, <<0, 1, -1>>), LayAdd(1, "one", c \o c), LayGet(1, <<0, 1>>), LayAdd(1, "conj", u(5) \o u(6)), LayAdd(1, "pair", c \o c \o c \o c), LayGet(1, <<0, 1>>)>>)
G22 == Times(LAMBDA r : Cat([cap \in 1..10 |-> [k \in 1..8 |-> C22Trace(cap, 1000 * r + 10 * cap + k)]]) \o Cat([c \in 1..13 |-> <<C22Fill(c - 1, 1000 * r + 500 + c)>>]))

(* ---- C23: two builds.  Every trace has one call that may be rejected, at its end -------------------- *)
C23Good(ty, i) == Trace(ID("c23g.", i), <<Make(1, ty)>> \o Cat([k \in 1..3 |-> <<AnySetup(1, ty, i, 100 * k), Filt(1, "d", Noise(8, One, i, k))>>]) \o <<Respond(1, Freqs(i, 6, 2)), Look(1)>>)
C23Bad(ty, i) == Trace(ID("c23b.", i), <<Make(1, ty), AnySetup(1, ty, i, 100), Filt(1, "d", Noise(4, One, i, 1)), BadSetup(1, ty, i, 200)>>)
C23Wild(ty, i) == Trace(ID("c23w.", i), <<Make(1, ty), AnySetup(1, ty, i, 100), WildSetup(1, ty, i, 300)>>)
C23Query(ty, i) == Trace(ID("c23q.", i), <<Make(1, ty), AnySetup(1, ty, i, 100), CASE i % 3 = 0 -> Respond(1, <<R("0.6")>>) [] i % 3 = 1 -> Index(1, <<-1>>) [] OTHER -> Index(1, <<40>>)>>)
C23Biquad(i) == Trace(ID("c23q.", i), <<New(1, "BQ", "BQ", 1, "D1"), BiquadWild(i, 100)>>)
\* every kind of call on a layout, after each of these beginnings
LayAll(i) ==
  LET u == Root(i, 1) v == Root(i, 3) c == CReal(u[1]) d == CReal(v[1]) nan == <<NaN, Zero>> nan2 == <<R("0.5"), NaN>> zero == CReal(Zero) IN
  <<LayAdd(1, "conj", u \o v), LayAdd(1, "one", c \o d), LayAdd(1, "pair", c \o d \o d \o c), LayAdd(1, "pair", u \o CConj(u) \o v \o CConj(v)), LayAdd(1, "conj", c \o d),
    LayAdd(1, "one", nan \o d), LayAdd(1, "one", c \o nan), LayAdd(1, "conj", nan \o d), LayAdd(1, "conj", u \o nan2), LayAdd(1, "pair", nan \o nan \o c \o d), LayAdd(1, "pair", c \o d \o d \o nan),
    LayAdd(1, "pair", u \o u \o v \o CConj(v)), LayAdd(1, "pair", u \o CConj(u) \o v \o v), LayAdd(1, "pair", u \o c \o v \o CConj(v)), LayAdd(1, "pair", c \o u \o v \o CConj(v)), LayAdd(1, "pair", c \o d \o c \o v),
    LayAdd(1, "pair", zero \o c \o d \o c), LayAdd(1, "pair", c \o zero \o d \o c), LayAdd(1, "pair", c \o d \o zero \o c), LayAdd(1, "pair", c \o d \o d \o zero),
    LayAdd(1, "conj", u \o <<Inf, Zero>>), LayAdd(1, "reset", <<>>), LayAdd(1, "normal", <<D(i, 6), D(i, 7)>>), LayGet(1, <<0>>), LayGet(1, <<1>>), LayGet(1, <<2>>), LayGet(1, <<-1>>)>>
C23Start(i, k) == LET u == Root(i, 5) v == Root(i, 7) c == CReal(u[1]) IN
  CASE k = 1 -> <<LayNew(1, "LB", 4)>>
    [] k = 2 -> <<LayNew(1, "LB", 3), LayAdd(1, "conj", u \o v)>>
    [] k = 3 -> <<LayNew(1, "LB", 6), LayAdd(1, "conj", u \o v), LayAdd(1, "one", c \o c)>>
    [] OTHER -> <<LayNew(1, "LB", 2), LayAdd(1, "conj", u \o v)>>
C23Lay(i) == LET all == LayAll(i) IN Cat([k \in 1..4 |-> [m \in DOMAIN all |-> Trace(ID("c23l.", 200 * i + 50 * k + m), C23Start(i, k) \o <<all[m]>>)]])
\* designs and transforms, accepted and rejected
C23Trans(i) ==
  LET kind == Pick(i, 1, <<"BWLP", "BWLS", "C1LP", "C1LS", "C2LP", "C2LS">>)
      pa(k, j) == Tail(PoleArgs(CASE k \in {"BWLP", "BWLS"} -> "BW" [] k \in {"C1LP", "C1LS"} -> "C1" [] OTHER -> "C2", IF k \in {"BWLS", "C1LS", "C2LS"} THEN "LS" ELSE "LP", i, j))
      to == Pick(i, 3, <<"LP", "HP", "BP", "BS">>)
      good == IF to \in {"BP", "BS"} THEN BandOf(i, 4) ELSE <<FreqOf(i, 4)>>
      bad == IF to \in {"BP", "BS"} THEN Pick(i, 5, <<<<R("0.2"), Zero>>, <<R("-0.2"), R("0.1")>>, <<Half, R("0.1")>>, <<NaN, R("0.1")>>, <<R("0.2"), NaN>>>>) ELSE Pick(i, 5, <<<<Half>>, <<R("-0.1")>>, <<NaN>>>>)
      \* storage of four digital poles, or of eight
      small == Chance(i, 6, 30)
      ord == DInt(i, 7, 7) - 1 IN
  Trace(ID("c23t.", i), <<LayNew(1, kind, 4), LayNew(2, "LB", IF small THEN 2 ELSE 8), LayDesign(1, ord, pa(kind, 8))>> \o
       (IF ord \in 0..4 THEN <<LayTrans(2, 1, to, IF Chance(i, 9, 50) THEN bad ELSE good)>> ELSE <<>>))
G23 == Times(LAMBDA r : LET t == PoleMix(<<3, 4, 2>>, r) \o RbjTypes \o SosTypes(<<2>>) \o BqTypes IN
         Per(t, LAMBDA ty, k : C23Good(ty, 1000 * r + k)) \o Cat([q \in 1..2 |-> Per(t, LAMBDA ty, k : C23Bad(ty, 1000 * r + 200 * q + k))]) \o Per(t, LAMBDA ty, k : C23Wild(ty, 1000 * r + 600 + k)) \o
         Per(SelectSeq(t, LAMBDA x : x[1] \in Families), LAMBDA ty, k : C23Query(ty, 1000 * r + 800 + k)) \o [k \in 1..40 |-> C23Biquad(100 * r + k)] \o C23Lay(r) \o [k \in 1..60 |-> C23Trans(100 * r + k)])

(* ---- C24: queries ------------------------------------------------------------------------------------ *)
C24Trace(ty, i) ==
  Trace(ID("c24.", i), <<Make(1, ty)>> \o (IF ty[1] = "RBJ" THEN <<>> ELSE <<Query(ty, 1, i, 50), Query(ty, 1, i, 60)>>) \o
     Cat([k \in 1..10 |-> <<CASE k % 5 = 1 -> AnySetup(1, ty, i, 100 * k) [] k % 5 = 3 -> BadSetup(1, ty, i, 100 * k) [] k % 5 = 4 /\ k > 5 -> Reset(1) [] OTHER -> Filt(1, "d", Noise(4, One, i, k))>> \o
        [m \in 1..5 |-> Query(ty, 1, i, 2000 + 100 * k + 10 * m)] \o <<Filt(1, "d", Noise(4, One, i, 20 + k)), Look(1)>>]))
G24 == Times(LAMBDA r : Per(AllMix(CapSeq, r) \o DefTypes \o RbjTypes, LAMBDA ty, k : C24Trace(ty, 1000 * r + k)))

(* ---- C25: introspection --------------------------------------------------------------------------------- *)
C25Trace(ty, i) ==
  LET n == TemplateOrder(ty[3]) m == Sections(ty[2], n) a == ArgsOf(ty[1], ty[2], i, 100)
      all == [k \in 1..(m + 4) |-> k - 2] \o <<-2147483647, 2147483647, 100>>
      ords == <<n, 1, n, (n + 1) \div 2, n, 0, n - 1, n>> IN
  Trace(ID("c25.", i), <<Make(1, ty), Index(1, all), Getters(1)>> \o Cat([k \in DOMAIN ords |-> <<Setup(1, IF k % 2 = 0 THEN "N" ELSE "S", ords[k], IF k % 2 = 0 THEN a ELSE <<One>> \o a), Index(1, all), Look(1), Getters(1), Filt(1, "d", Noise(4, One, i, k))>>]) \o
     <<BadSetup(1, ty, i, 500), Index(1, all), Look(1), MostSetup(1, ty, i, 600), Index(1, all), CopyOf(2, 1), Index(2, all), Getters(2)>>)
C25Other(ty, i) == Trace(ID("c25o.", i), <<Make(1, ty)>> \o Cat([k \in 1..5 |-> <<AnySetup(1, ty, i, 100 * k), Getters(1), Look(1), Filt(1, "d", Noise(5, One, i, k))>>]))
G25 == Times(LAMBDA r : Per(PoleTypes(<<1, 2, 3, 4, 5, 8>>) \o PoleMix(<<10, 12, 16, 20>>, r) \o DefTypes, LAMBDA ty, k : C25Trace(ty, 1000 * r + k)) \o Per(RbjTypes \o SosTypes(<<1, 3, 6, 10>>) \o BqTypes, LAMBDA ty, k : C25Other(ty, 1000 * r + 700 + k)))

(* ---- C26: prototypes and transforms ------------------------------------------------------------------------ *)
ProtoKinds == <<"BWLP", "BWLS", "C1LP", "C1LS", "C2LP", "C2LS">>
DesignArgs(kind, i, j) == LET a == PoleArgs(CASE kind \in {"BWLP", "BWLS"} -> "BW" [] kind \in {"C1LP", "C1LS"} -> "C1" [] OTHER -> "C2", IF kind \in {"BWLS", "C1LS", "C2LS"} THEN "LS" ELSE "LP", i, j) IN Tail(a)
TransArgs(how, i, j) == IF how \in {"BP", "BS"} THEN BandOf(i, j) ELSE <<FreqOf(i, j)>>
Hows == <<"LP", "HP", "BP", "BS">>
C26Trace(kind, cap, i) ==
  LET trans(j) == LET how == Hows[1 + DInt(i, j, 4)] IN LayTrans(2, 1, how, TransArgs(how, i, j + 1)) IN
  Trace(ID("c26.", i), <<LayNew(1, kind, cap), LayNew(2, "LB", 2 * cap)>> \o
    Cat([k \in 1..6 |-> LET a == DesignArgs(kind, i, 100 * k) ord == IF k % 3 = 1 THEN cap ELSE 1 + DInt(i, 100 * k + 50, cap) IN
       <<LayDesign(1, ord, a), trans(100 * k + 60), trans(100 * k + 70)>> \o (IF k % 2 = 0 THEN <<LayDesign(1, ord, a), LayTrans(2, 1, "HP", <<FreqOf(i, 100 * k + 80)>>)>> ELSE <<>>) \o
       (IF k = 3 THEN <<LayDesign(1, cap + 1, a), LayDesign(1, -1, a), LayDesign(1, ord, a), LayTrans(2, 1, "LP", <<R("0.6")>>), LayTrans(2, 1, "BP", <<R("0.2"), Zero>>), LayTrans(2, 1, "BS", <<R("-0.2"), R("0.1")>>), trans(100 * k + 90)>> ELSE <<>>)]) \o
    [k \in 1..4 |-> LayTrans(2, 1, Hows[k], TransArgs(Hows[k], i, 900 + 10 * k))])
G26 == Times(LAMBDA r : Cat([k \in DOMAIN ProtoKinds |-> Cat([c \in DOMAIN Caps8 |-> <<C26Trace(ProtoKinds[k], Caps8[c], 1000 * r + 100 * k + c), C26Trace(ProtoKinds[k], Caps8[c], 1000 * r + 100 * k + 50 + c)>>])]))

(* ---- all paths of the small models --------------------------------------------------------------------- *)
\* life cycles: every path, the types in turn
LifeAll(types, depth, shift) ==
  LET p == LifeWords(depth) IN
  [k \in DOMAIN p |-> LET ty == types[1 + ((k + shift) % Len(types))] i == 20000 * shift + k IN Trace(ID("life.", i), LifeScript(p[k], ty, i, LAMBDA o, j : BadSetup(o, ty, i, j)))]
GLife == LET t == AllMix(<<2, 3, 4, 1, 5>>, Seed) \o DefTypes IN IF Size = 1 THEN LifeAll(t, 3, Seed % 7) ELSE LifeAll(t, 4, Seed % 7)
GCache == Cat([a \in 1..3 |-> Cat([b \in 1..7 |-> CachePaths(FamSeq[a], PoleKindSeq[b], <<2, 3, 1>>[1 + ((a + b + Seed) % 3)], StSeq[1 + ((a + b) % 3)], IF Size > 1 \/ (a + 2 * b + Seed) % 4 = 0 THEN 3 ELSE 2, 10 * a + b + 100 * (Seed % 100))])])
GLay == LayPaths(0, 2) \o LayPaths(1, 2) \o LayPaths(2, 2) \o LayPaths(3, IF Size = 1 THEN 2 ELSE 3) \o LayPaths(4, IF Size = 1 THEN 3 ELSE 3) \o (IF Size = 1 THEN <<>> ELSE LayPaths(5, 3))
GArgs == Cat([a \in 1..3 |-> Cat([b \in 1..7 |-> ArgPaths(FamSeq[a], PoleKindSeq[b], <<2, 3, 4, 1>>[1 + ((a + b + Seed) % 4)], StSeq[1 + ((a + b) % 3)], 10 * a + b)])]) \o Cat([b \in DOMAIN RbjKindSeq |-> ArgPaths("RBJ", RbjKindSeq[b], 2, "D1", 40 + b)])

Script == CASE Profile = "C01" -> G01 [] Profile = "C02" -> G02 [] Profile = "C03" -> G03 [] Profile = "C04" -> G04 [] Profile = "C05" -> G05
            [] Profile = "C06" -> G06 [] Profile = "C07" -> G07 [] Profile = "C07T" -> G07T [] Profile = "C08" -> G08 [] Profile = "C09" -> G09
            [] Profile = "C10" -> G10 [] Profile = "C11" -> G11 [] Profile = "C12" -> G12 [] Profile = "C13" -> G13 [] Profile = "C14" -> G14
            [] Profile = "C15" -> G15 [] Profile = "C16" -> G16 [] Profile = "C17" -> G17 [] Profile = "C18" -> G18 [] Profile = "C19" -> G19
            [] Profile = "C20" -> G20 [] Profile = "C21" -> G21 [] Profile = "C22" -> G22 [] Profile = "C23" -> G23 [] Profile = "C24" -> G24
            [] Profile = "LIFE" -> GLife [] Profile = "CACHE" -> GCache [] Profile = "LAY" -> GLay [] Profile = "ARGS" -> GArgs
            [] Profile = "C25" -> G25 [] Profile = "C26" -> G26

VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = ndJsonSerialize(OutFile, Script)
Spec == Init /\ [][Next]_done
=============================================================================
