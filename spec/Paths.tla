------------------------------- MODULE Paths -------------------------------
(***************************************************************************)
(* Every sequence of calls of a given length over a small alphabet: the    *)
(* behaviours of the models MC_Life, MC_Cache and MC_Layout as scripts.    *)
(* All paths of a model up to the length are replayed on the library.      *)
(***************************************************************************)
EXTENDS Draw

\* all sequences of length k over the sequence of alternatives alts
RECURSIVE Words(_, _)
Words(alts, k) == IF k = 0 THEN <<<<>>>> ELSE LET w == Words(alts, k - 1) IN Cat([m \in DOMAIN w |-> [n \in DOMAIN alts |-> Append(w[m], alts[n])]])

(* ---- life cycles: the operations of MC_Life on two names ----------------- *)
\* a path is <<words, live names>>, a word <<operation, object, other object>>
LifeNext(live) ==
  LET other(o) == 3 - o IN
  IF live = {} THEN <<<<"N", 1, 1>>>>
  ELSE Cat([o \in 1..2 |-> IF o \in live
            THEN <<<<"S", o, o>>, <<"F", o, o>>, <<"X", o, o>>, <<"R", o, o>>, <<"A", o, o>>, <<"D", o, o>>>> \o (IF other(o) \in live THEN <<<<"A", o, other(o)>>>> ELSE <<>>)
            ELSE <<<<"N", o, o>>, <<"C", o, other(o)>>, <<"M", o, other(o)>>>>])
LifeAfter(live, w) == CASE w[1] \in {"N", "C"} -> live \union {w[2]} [] w[1] = "M" -> {w[2]} [] w[1] = "D" -> live \ {w[2]} [] OTHER -> live
RECURSIVE LifeWords(_)
LifeWords(k) == IF k = 0 THEN <<<<<<>>, {1}>>>>
                ELSE LET p == LifeWords(k - 1) IN Cat([m \in DOMAIN p |-> LET q == LifeNext(p[m][2]) IN [n \in DOMAIN q |-> <<Append(p[m][1], q[n]), LifeAfter(p[m][2], q[n])>>]])
\* the calls of a word; bad(o, j) is a rejected call
LifeCall(w, ty, i, j, bad(_, _)) ==
  CASE w[1] = "N" -> <<Make(w[2], ty)>> [] w[1] = "S" -> <<AnySetup(w[2], ty, i, IF (i + (j \div 1000)) % 2 = 0 THEN 100 ELSE j)>> [] w[1] = "F" -> <<Filt(w[2], "d", Noise(3, One, i, j))>>
    [] w[1] = "X" -> <<bad(w[2], j)>> [] w[1] = "R" -> <<Reset(w[2])>> [] w[1] = "A" -> <<AssignTo(w[2], w[3])>> [] w[1] = "D" -> <<Kill(w[2])>>
    [] w[1] = "C" -> <<CopyOf(w[2], w[3])>> [] w[1] = "M" -> <<MoveOf(w[2], w[3])>>
LifeScript(path, ty, i, bad(_, _)) ==
  <<Make(1, ty), AnySetup(1, ty, i, 100), Filt(1, "d", Noise(3, One, i, 1))>> \o
  Cat([k \in DOMAIN path[1] |-> LifeCall(path[1][k], ty, i, 1000 * k, bad)]) \o <<LookAll>> \o
  Cat([o \in 1..2 |-> IF o \in path[2] THEN <<Filt(o, "d", Noise(3, One, i, 2))>> \o (IF ty[1] \in Families THEN <<PzFound(o), Respond(o, <<R("0.1"), R("0.3")>>)>> ELSE <<>>) ELSE <<>>]) \o <<LookAll>>

(* ---- design caches: the calls of MC_Cache --------------------------------- *)
\* two parameter sets that differ in what the analog prototype depends on
CacheAlts(fam, kd, n, i) ==
  LET a == ArgsOf(fam, kd, i, 100)
      last == Len(a)
      b == IF fam = "BW" /\ ~IsShelf(kd) THEN [a EXCEPT ![1] = RMul(@, R("0.9"))]
           ELSE [a EXCEPT ![last] = RMul(@, IF IsShelf(kd) /\ fam # "BW" THEN R("0.8") ELSE R("1.1"))]
      c == IF fam # "BW" /\ IsShelf(kd) THEN [a EXCEPT ![last - 1] = RMul(@, R("1.2"))] ELSE [a EXCEPT ![1] = RMul(@, R("0.95"))]
      off(v) == [v EXCEPT ![1] = R("0.7")]
      nan(v) == [v EXCEPT ![last] = NaN]
      s(ord, v) == Setup(1, "N", ord, v)
  IN <<s(n, a), s(n, b), s(n, c), s(1, a), s(n + 1, a), s(-1, a), s(n, nan(a)), s(n, off(a)), s(n + 1, b), s(n, off(b)), s(1, off(c))>>
\* all words, cut in traces of a new object each
CacheScript(word, ty, i) ==
  Trace(ID("cache.", i), <<Make(1, ty)>> \o word \o <<Make(2, ty), [word[Len(word)] EXCEPT !.o = 2]>> \o (IF i % 2 = 0 THEN <<PzKept(1), PzFound(1)>> ELSE <<Filt(1, "d", Noise(3, One, i, 1)), Respond(1, <<R("0.2")>>)>>))
CachePaths(fam, kd, n, st, len, i) ==
  LET alts == CacheAlts(fam, kd, n, i) w == Words(Idx(Len(alts)), len) IN
  [k \in DOMAIN w |-> CacheScript([m \in 1..len |-> alts[w[k][m]]], <<fam, kd, n, st>>, 100000 * i + k)]

(* ---- layouts: the calls of MC_Layout ---------------------------------------- *)
LayAlts ==
  LET c == CReal(Half) d == CReal(R("-0.25")) u == <<R("0.3"), R("0.4")>> v == <<R("-0.2"), R("0.9")>> z == CReal(Zero) nan == <<NaN, Zero>> nan2 == <<R("0.5"), NaN>> inf == <<Inf, Zero>> IN
  <<LayAdd(1, "one", c \o d), LayAdd(1, "one", z \o z), LayAdd(1, "one", u \o d), LayAdd(1, "one", nan \o d), LayAdd(1, "one", c \o nan2),
    LayAdd(1, "conj", u \o v), LayAdd(1, "conj", c \o d), LayAdd(1, "conj", u \o inf), LayAdd(1, "conj", nan2 \o v), LayAdd(1, "conj", u \o nan),
    LayAdd(1, "pair", u \o CConj(u) \o v \o CConj(v)), LayAdd(1, "pair", c \o d \o d \o c), LayAdd(1, "pair", u \o CConj(u) \o c \o d), LayAdd(1, "pair", c \o c \o v \o CConj(v)),
    LayAdd(1, "pair", u \o u \o c \o d), LayAdd(1, "pair", c \o d \o v \o u), LayAdd(1, "pair", c \o z \o c \o d), LayAdd(1, "pair", c \o d \o z \o d), LayAdd(1, "pair", nan \o nan \o c \o d), LayAdd(1, "pair", c \o d \o c \o nan2),
    LayAdd(1, "reset", <<>>), LayAdd(1, "normal", <<R("0.125"), R("3")>>), LayAdd(1, "store", <<R("2")>>)>>
LayPaths(cap, len) ==
  LET w == Words(LayAlts, len) IN
  [k \in DOMAIN w |-> Trace(ID("layp.", 100000 * cap + k), <<LayNew(1, "LB", cap)>> \o w[k] \o <<LayGet(1, <<0, 1, 2, -1, 3>>)>>)]

(* ---- arguments: every combination of classes of Args ------------------------- *)
FreqClass == <<R("-0.1"), R("-1e-300"), Zero, R("1e-7"), R("0.1"), R("0.37"), R("0.49999999999999994"), Half, R("0.75"), NaN, Inf, RNeg(Inf)>>
WidthClass == <<R("-0.1"), Zero, R("-0.0"), R("0.05"), R("0.6"), NaN, Inf>>
GainClass == <<R("-12"), Zero, R("6"), NaN>>
RippleClass == <<R("-1"), Zero, R("0.7"), R("30"), NaN>>
OrderClass(n) == <<-2, -1, 0, 1, n, n + 1, 2 * n + 1>>
RECURSIVE Product(_)
Product(ss) == IF ss = <<>> THEN <<<<>>>> ELSE LET t == Product(Tail(ss)) IN Cat([k \in DOMAIN ss[1] |-> [m \in DOMAIN t |-> <<ss[1][k]>> \o t[m]]])
ArgClasses(fam, kd) ==
  IF fam = "RBJ" THEN <<FreqClass>> \o (IF kd \in {"LS", "HS", "BH"} THEN <<GainClass>> ELSE <<>>) \o <<RippleClass>>
  ELSE <<FreqClass>> \o (IF IsBand(kd) THEN <<WidthClass>> ELSE <<>>) \o (IF IsShelf(kd) THEN <<GainClass>> ELSE <<>>) \o (IF fam = "BW" THEN <<>> ELSE <<RippleClass>>)
\* chunks of at most m calls on one object
Chunks(s, m) == [k \in 1..((Len(s) + m - 1) \div m) |-> SubSeq(s, (k - 1) * m + 1, IF k * m > Len(s) THEN Len(s) ELSE k * m)]
ArgPaths(fam, kd, n, st, i) ==
  LET args == Product(ArgClasses(fam, kd))
      ords == IF fam = "RBJ" THEN <<0>> ELSE OrderClass(TemplateOrder(n))
      sr(k) == Pick(i, k, RateSeq)
      call(k, ord) == LET ov == IF fam = "RBJ" THEN <<"n", "s">>[1 + (k % 2)]
                                ELSE IF ord = TemplateOrder(n) THEN <<"n", "s", "N", "S">>[1 + (k % 4)] ELSE <<"N", "S">>[1 + (k % 2)]
                      IN Setup(1, ov, IF HasOrder(ov) THEN ord ELSE 0, ForOv(fam, kd, ov, sr(k), args[k]))
      all == Cat([m \in DOMAIN ords |-> [k \in DOMAIN args |-> call(k, ords[m])]])
      ch == Chunks(all, 150)
  IN [c \in DOMAIN ch |-> Trace(ID("args.", 1000 * i + c), <<Make(1, <<fam, kd, n, st>>)>> \o ch[c])]
=============================================================================
