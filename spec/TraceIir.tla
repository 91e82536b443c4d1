------------------------------ MODULE TraceIir ------------------------------
(***************************************************************************)
(* Checks recorded executions of the library against the specification.    *)
(* TraceFile holds one JSON object per line, {"t": name, "ev": [events]},  *)
(* an event being one call of the public API with its arguments, its       *)
(* result and what can be seen of the filter afterwards (harness/drv.cpp). *)
(* Every trace is one behaviour: Life, Layouts and Import say what each    *)
(* call does to the abstract state, Args which calls are accepted, Laws    *)
(* what a design has to achieve.  An event that contradicts the            *)
(* specification is reported with a label for each thing that is wrong;    *)
(* the trace then goes on from what was observed.                          *)
(* Focus is the set of labels of interest.                                 *)
(***************************************************************************)
EXTENDS Args, Import, TLC, Json
CONSTANTS TraceFile, Focus

Traces == ndJsonDeserialize(TraceFile)

L == INSTANCE Life WITH Add <- RAdd, Sub <- RSub, Mul <- RMul, Nil <- Zero, Unit <- One
E == INSTANCE Engine WITH Add <- RAdd, Sub <- RSub, Mul <- RMul, Nil <- Zero
Y == INSTANCE Layouts WITH Conj <- CConj, IsReal <- CRealNum, IsZero <- LAMBDA u : CRealNum(u) /\ IsNought(u[1]),
                           IsNan <- CIsNaN, Same <- CSame, Nought <- <<Zero, Zero>>

VARIABLES tr, l, objs, lays, memo
vars == <<tr, l, objs, lays, memo>>

Flag(label, wrong) == IF label \in Focus /\ wrong THEN {label} ELSE {}
Result(os, ls, mm, bad) == [objs |-> os, lays |-> ls, memo |-> mm, bad |-> bad]
Pole(ob) == ob.fam \in Families
Order0(ob) == ob.n

(* ------------------------------ samples ---------------------------------- *)

\* conversion to a sample type and back
Conv(ty, x) == IF ty = "d" THEN x ELSE IF ty = "f" THEN RToFloat(x) ELSE RTrunc(x)
Limit(ty) == CASE ty = "i" -> R("2147483647") [] ty = "s" -> R("32767") [] ty = "b" -> R("127")
               [] ty = "l" -> R("9e18") [] ty = "f" -> R("3.4e38") [] OTHER -> Inf

K01 == R("0.1")
K099 == R("0.995")
Vast == R("1e290")

CoefSum(c) == RAdd(RAdd(RAbs(c[2]), RAbs(c[3])), RAdd(RAbs(c[4]), RAdd(RAbs(c[5]), RAbs(c[6]))))
\* the cascade, and the size of the terms that were added up in it
CascadeMag(ob, sums, dl, x) ==
  FoldLeft(LAMBDA acc, i :
      LET q == E!Step(ob.st, ob.cf[i], dl[i], acc[1])
          big == FoldLeft(LAMBDA m, v : RMax(m, RAbs(v)), RAbs(acc[1]), dl[i])
      IN <<q[1], Append(acc[2], q[2]), RMax(acc[3], RMul(sums[i], big))>>,
    <<x, <<>>, Zero>>, Ints(Len(ob.cf)))

\* outputs ys for the inputs xs: new delay lines, size of the recent signal, indices that are wrong
FilterCmp(ob, ty, xs, ys) ==
  LET sums == [i \in DOMAIN ob.cf |-> CoefSum(ob.cf[i])] IN
  FoldLeft(LAMBDA acc, i :
      LET q == CascadeMag(ob, sums, acc[1], Conv(ty, xs[i]))
          y == q[1]
          size == RMax(RAbs(y), q[3])
          \* ill: fed with NaN or infinity.  vast: sums in another order may overflow, nothing is
          \* known of the delay lines from then on
          ill == ~RIsFinite(Conv(ty, xs[i])) \/ ~RIsFinite(acc[2])
          vast == ill \/ ~RLt(RMax(size, acc[2]), Vast)
          mag == IF ill THEN Inf ELSE IF vast THEN Vast ELSE RMax(RMul(K099, acc[2]), RMax(RAbs(y), RMul(K01, q[3])))
          tol == RAdd(Tiny, RMul(E9, mag))
          near == RIsFinite(y) /\ ~vast /\ RLt(RAdd(RAbs(y), tol), Limit(ty))
          ok == IF ~RIsFinite(y) THEN ~RIsFinite(ys[i]) \/ ty # "d" \/ ~ill
                ELSE IF ~near THEN TRUE
                ELSE /\ RLe(Conv(ty, RSub(y, tol)), ys[i]) /\ RLe(ys[i], Conv(ty, RAdd(y, tol)))
      IN <<q[2], mag, IF ok \/ Len(acc[3]) > 3 THEN acc[3] ELSE Append(acc[3], i), acc[4] \/ (near /\ ~RIsFinite(ys[i]))>>,
    <<ob.dl, ob.mag, <<>>, FALSE>>, Ints(Len(xs)))

\* largest radius of the poles
SecRadius(c) == LET d == RSub(RSq(c[2]), RMul(ROfInt(4), c[3])) IN
                IF RLt(d, Zero) THEN RSqrt(c[3]) ELSE RMul(Half, RAdd(RAbs(c[2]), RSqrt(d)))
Radius(cf) == FoldLeft(LAMBDA m, c : RMax(m, SecRadius(c)), Zero, cf)
\* all inputs zero for long enough that nothing can be left
Settled(cf, n) == LET r == Radius(cf) IN RLt(r, One) /\ (IsNought(r) \/ RLt(RMul(ROfInt(n), RLn(r)), ROfInt(-130)))
AllNought(s) == \A i \in DOMAIN s : IsNought(s[i])

(* ------------------------------ poles and zeros -------------------------- *)

\* pair <<p1, z1, p2, z2>> gives the polynomials of the section c
CSum(u, v) == <<RAdd(u[1], v[1]), RAdd(u[2], v[2])>>
PolyOk(u, v, c1, c2) ==
  /\ CNear(CSum(u, v), CReal(RNeg(c1)), RMul(E11, RAdd(One, RAdd(RAbs(c1), RSqrt(RAbs(c2))))))
  /\ CNear(CMul(u, v), CReal(c2), RMul(E11, RAdd(One, RAdd(RAbs(c2), RSq(c1)))))
PairOk(p, c) ==
  /\ PolyOk(p[1], p[3], c[2], c[3])
  /\ IsNought(c[4]) \/ PolyOk(p[2], p[4], RDiv(c[5], c[4]), RDiv(c[6], c[4]))
FirstOrder(c) == IsNought(c[3]) /\ IsNought(c[6])
IsSingle(p) == IsNought(p[3][1]) /\ IsNought(p[3][2]) /\ IsNought(p[4][1]) /\ IsNought(p[4][2])
PairsOk(pz, cf) == Len(pz) = Len(cf) /\ \A i \in DOMAIN cf : \E j \in DOMAIN pz : PairOk(pz[j], cf[i]) /\ (FirstOrder(cf[i]) => IsSingle(pz[j]))
CountPoles(pz) == FoldLeft(LAMBDA k, p : k + (IF IsSingle(p) THEN 1 ELSE 2), 0, pz)
PzFinite(pz) == \A i \in DOMAIN pz : \A k \in 1..4 : CFinite(pz[i][k])

(* ------------------------------ events ----------------------------------- *)

Common(e) == Flag("guard", "gd" \in DOMAIN e /\ e.gd # 0) \union Flag("alloc", "al" \in DOMAIN e /\ e.al # 0 /\ ("r" \in DOMAIN e => e.r = "ok"))
Rows(cf, n) == SubSeq(cf, 1, n)
IdTail(cf, n) == \A i \in (n + 1)..Len(cf) : ExactRow(cf[i], IdentityRow)
NoNaN(cf) == \A i \in DOMAIN cf : ~HasNaN(cf[i])
Used(ob) == Rows(ob.cf, ob.ns)

Kept(ob, e) == e.cf = ob.cf /\ e.ns = ob.ns
Adopt(ob, e) == [ob EXCEPT !.cf = e.cf, !.ns = e.ns]

EvNew(e) ==
  LET pole == e.fam \in Families
      cap == IF e.fam = "RBJ" \/ e.fam = "BQ" THEN 1 ELSE IF e.fam = "SOS" THEN e.n ELSE Sections(e.kd, TemplateOrder(e.n))
      type == <<e.fam, e.kd, e.n, e.st>>
      st == IF e.st = "DD" THEN "D2" ELSE e.st
      made == e.r = "ok"
      rec == L!Fresh(type, pole, st, cap) @@
             [fam |-> e.fam, kd |-> e.kd, n |-> e.n, mag |-> Zero, last |-> [set |-> FALSE], stale |-> FALSE]
      d == SosDecide(e.a)
      bad == IF Len(e.a) = 0
             THEN Flag("dec", ~made) \union
                  (IF ~made THEN {} ELSE Flag("cap", Len(e.cf) # cap) \union Flag("fresh", e.fam # "RBJ" /\ (~IdTail(e.cf, 0) \/ e.ns # rec.ns)))
             ELSE Flag("dec", (d = "acc" /\ ~made) \/ (d = "rej" /\ e.r # "inv")) \union Flag("exc", e.r = "exc") \union
                  (IF ~made THEN {} ELSE Flag("nan", ~NoNaN(e.cf)) \union Flag("imp", d = "acc" /\ ~ExactRows(e.cf, SosRows(e.a))))
  IN Result(IF made THEN L!New(objs, e.o, Adopt(rec, e)) ELSE objs, lays, memo, bad)

\* what is the same for all filters that do the same: compared over the whole trace
MemoBad(key, val, same(_, _)) == key \in DOMAIN memo /\ ~same(memo[key], val)
MemoAdd(key, val) == IF key \in DOMAIN memo THEN memo ELSE (key :> val) @@ memo
MemoStore(mm, key, val) == IF key \in DOMAIN mm THEN mm ELSE (key :> val) @@ mm
RelMemo == R("1e-11")
RelCall == R("1e-13")

EvSetup(e) ==
  LET ob == objs[e.o]
      designed == Pole(ob) \/ ob.fam = "RBJ"
      p == Request(ob.fam, ob.kd, ob.n, e.ov, e.ord, e.a)
      imp == IF ob.fam = "SOS" THEN <<SosDecide(e.a), SosRows(e.a)>>
             ELSE LET b == Biquad(IF ob.kd = "BQ" THEN "coef" ELSE ob.kd, e.a, ob.cf[1]) IN <<b[1], <<b[2]>>>>
      d == IF designed THEN Decide(ob.fam, ob.kd, ob.n, e.ov, e.ord, e.a) ELSE imp[1]
      acc == e.r = "ok"
      nsWant == IF Pole(ob) THEN Sections(ob.kd, p.n) ELSE ob.ns
      key == <<ob.fam, ob.kd, p>>
      \* the very same call: accepted or not does not depend on what was before, nor does the result
      call == <<ob.fam, ob.kd, ob.n, e.ov, e.ord, e.a>>
      remember == designed /\ "memo" \in Focus
      used == IF e.ns >= 0 /\ e.ns <= Len(e.cf) THEN Rows(e.cf, e.ns) ELSE <<>>
      sane == acc /\ d = "acc"
      bad == Flag("dec", (d = "acc" /\ ~acc) \/ (d = "rej" /\ e.r # "inv")) \union
             Flag("ref", d = "acc" /\ ~acc) \union
             Flag("exc", e.r = "exc") \union
             Flag("keep", ~acc /\ ~Kept(ob, e)) \union
             (IF remember THEN Flag("memo", MemoBad(call, <<acc, IF acc THEN e.cf ELSE <<>>>>, LAMBDA a, b : a[1] = b[1] /\ (a[2] # b[2] => SameRows(a[2], b[2], RelCall)))) ELSE {}) \union
             (IF ~acc THEN {} ELSE
               Flag("nan", ~NoNaN(e.cf)) \union
               Flag("nst", d # "rej" /\ (e.ns # nsWant \/ Len(e.cf) # Len(ob.cf) \/ ~IdTail(e.cf, nsWant))) \union
               Flag("stab", designed /\ d # "rej" /\ p.n > 0 /\ Solid(p) /\ ~Stable(used)) \union
               (IF ~sane THEN {} ELSE
                 IF designed THEN
                   (IF "law" \in Focus /\ (Len(used) > 0) THEN Flag("law", Broken(p, used) # {}) ELSE {}) \union
                   (IF "memo" \in Focus THEN Flag("memo", MemoBad(key, used, LAMBDA a, b : SameRows(a, b, RelMemo))) ELSE {})
                 ELSE Flag("imp", ~ExactRows(e.cf, imp[2]))))
      ob2 == IF acc THEN [Adopt(ob, e) EXCEPT !.stale = FALSE, !.last = IF designed THEN [set |-> TRUE, p |-> p, reg |-> d = "acc"] ELSE @]
             ELSE [Adopt(ob, e) EXCEPT !.stale = TRUE]
  IN Result(L!Put(objs, e.o, ob2), lays, IF ~remember THEN memo ELSE MemoStore(IF sane THEN MemoAdd(key, used) ELSE memo, call, <<acc, IF acc THEN e.cf ELSE <<>>>>), bad)

EvFilter(e) ==
  LET ob == objs[e.o]
      q == FilterCmp(ob, e.ty, e.x, e.y)
      n == Len(e.x)
      last == e.y[n]
      bad == Flag("out", q[3] # <<>>) \union Flag("fexc", e.r # "ok") \union Flag("bnd", q[4]) \union
             Flag("die", n > 0 /\ AllNought(e.x) /\ RIsFinite(ob.mag) /\ Stable(ob.cf) /\ Settled(ob.cf, n) /\
                         ~RLe(RAbs(last), RAdd(Tiny, RMul(R("1e-27"), ob.mag))))
  IN Result(L!Put(objs, e.o, [ob EXCEPT !.dl = q[1], !.mag = q[2]]), lays, memo, bad)

EvReset(e) ==
  LET ob == objs[e.o] os == L!Reset(objs, e.o) IN
  Result([os EXCEPT ![e.o] = [Adopt(@, e) EXCEPT !.mag = Zero]], lays, memo, Flag("keep", ~Kept(ob, e)) \union Flag("fexc", e.r # "ok"))

EvCopy(e) ==
  LET os == L!Copy(objs, e.o, e.src) IN
  Result(IF e.e = "M" THEN L!Destroy([os EXCEPT ![e.o] = Adopt(@, e)], e.src) ELSE [os EXCEPT ![e.o] = Adopt(@, e)],
         lays, memo, Flag("copy", ~Kept(os[e.o], e)))

EvAssign(e) ==
  LET os == L!Assign(objs, e.o, e.src) IN
  Result([os EXCEPT ![e.o] = [Adopt(@, e) EXCEPT !.mag = objs[e.src].mag]], lays, memo, Flag("copy", ~Kept(os[e.o], e)))

EvDestroy(e) == Result(L!Destroy(objs, e.o), lays, memo, {})

EvLook(e) == Result([objs EXCEPT ![e.o] = Adopt(@, e)], lays, memo, Flag("snap", ~Kept(objs[e.o], e)))

EvLookAll(e) ==
  LET wrong == {i \in DOMAIN e.all : e.all[i].o \notin DOMAIN objs \/ ~Kept(objs[e.all[i].o], e.all[i])}
  IN Result(objs, lays, memo, Flag("snap", wrong # {} \/ {e.all[i].o : i \in DOMAIN e.all} # DOMAIN objs))

\* response: of the cascade in use, of the biquad, or of the first section
RespWant(ob) == IF Pole(ob) THEN Used(ob) ELSE <<ob.cf[1]>>
RespTol(cf, f, h) == RAdd(Tiny, RAdd(RMul(RAdd(E9, RMul(ROfInt(8), CondAt(cf, f))), CAbs(h)), RMul(E12, RespScale(cf, f))))
RespOk(cf, f, h) == LET w == Resp(cf, f) IN IF CFinite(w) THEN CNear(h, w, RespTol(cf, f, w)) ELSE TRUE
Outside(f) == RLt(f, Zero) \/ RLt(Half, f)
RespMemoOk(a, b) == CNear(a, b, RMul(E6, RAdd(CAbs(a), CAbs(b))))

EvResp(e) ==
  LET ob == objs[e.o]
      cf == RespWant(ob)
      At(i) == <<e.re[i], e.im[i]>>
      rej(i) == Pole(ob) /\ Outside(e.f[i])
      okat(i) == IF RIsNaN(e.f[i]) THEN TRUE ELSE IF rej(i) THEN e.q[i] = 1 ELSE e.q[i] = 0 /\ RespOk(cf, e.f[i], At(i))
  IN Result(objs, lays, memo, Flag("resp", \E i \in DOMAIN e.f : ~okat(i)))

EvRespStage(e) ==
  LET c == objs[e.o].cf[e.st + 1] IN
  Result(objs, lays, memo, Flag("resp", \E i \in DOMAIN e.f : ~RIsNaN(e.f[i]) /\ ~RespOk(<<c>>, e.f[i], <<e.re[i], e.im[i]>>)))

\* Z: the list a pole filter keeps, or the biquad's; z: recovered from the coefficients
EvPoleZero(e) ==
  LET ob == objs[e.o]
      cf == Used(ob)
      dom == /\ \A i \in DOMAIN cf : AllFinite(cf[i]) /\ NormalRow(cf[i])
             /\ IF e.e = "Z" /\ Pole(ob) THEN ob.last.set /\ ob.last.reg ELSE \A i \in DOMAIN cf : ~IsNought(cf[i][4])
      count == Pole(ob) /\ e.e = "Z" /\ ob.last.set /\ ob.last.reg /\
               CountPoles(e.pz) # (IF IsBand(ob.kd) THEN 2 ELSE 1) * ob.last.p.n
      \* after a rejected setup a pole filter's list is that of the design which failed: a known
      \* finding, so such lists have a label of their own
      label == IF e.e = "Z" /\ Pole(ob) /\ ob.stale THEN "pzrej" ELSE "pz"
  IN Result(objs, lays, memo, Flag(label, dom /\ (e.r # "ok" \/ ~PairsOk(e.pz, cf) \/ count)))

\* round trip of one section through its poles, zeros and gain
FormTol(m, c0, c1) == RMul(E11, RAdd(m, RDiv(RSq(c1), RAbs(c0))))
FormOk(v, c) ==
  /\ Near(RDiv(v[2], v[1]), c[2], FormTol(RAdd(One, RSqrt(RAbs(c[3]))), One, c[2]))
  /\ Near(RDiv(v[3], v[1]), c[3], FormTol(RAdd(One, RAbs(c[3])), One, c[2]))
  /\ LET t == FormTol(MaxB(c), c[4], c[5]) IN \A k \in 4..6 : Near(RDiv(v[k], v[1]), c[k], t)
EvForm(e) ==
  LET c == objs[e.o].cf[e.st + 1]
      dom == AllFinite(c) /\ NormalRow(c) /\ ~IsNought(c[4])
  IN Result(objs, lays, memo, Flag("pz", dom /\ (e.r # "ok" \/ ~FormOk(e.v, c) \/ ~Close(e.g[1], c[4], E12, Tiny))))

EvIndex(e) ==
  LET ob == objs[e.o]
      ok(x) == IF 0 <= x.i /\ x.i < ob.ns THEN x.r = "ok" /\ x.v = ob.cf[x.i + 1] ELSE x.r = "inv"
  IN Result(objs, lays, memo, Flag("idx", \E i \in DOMAIN e.ix : ~ok(e.ix[i])))

EvGetters(e) ==
  LET ob == objs[e.o]
      want(c) == <<c[1], RMul(c[2], c[1]), RMul(c[3], c[1]), RMul(c[4], c[1]), RMul(c[5], c[1]), RMul(c[6], c[1])>>
      same(g, w) == \A k \in 1..6 : ~RIsFinite(w[k]) \/ Close(g[k], w[k], E12, Tiny)
  IN Result(objs, lays, memo, Flag("get", Len(e.gt) # Len(ob.cf) \/ \E i \in DOMAIN ob.cf : ~same(e.gt[i], want(ob.cf[i]))))

EvState(e) ==
  LET ob == objs[e.o] q == FilterCmp(ob, "d", e.x, e.y) IN Result(objs, lays, memo, Flag("state", q[3] # <<>>))

EvBiquad(e) ==
  LET ob == objs[e.o]
      b == Biquad(e.w, e.a, ob.cf[1])
      acc == e.r = "ok"
      right == IF e.w = "form" THEN FormOk(e.cf[1], ob.cf[1]) \/ ~NormalRow(ob.cf[1]) ELSE ExactRow(e.cf[1], b[2])
  IN Result([objs EXCEPT ![e.o] = Adopt(@, e)], lays, memo,
       Flag("dec", (b[1] = "acc" /\ ~acc) \/ (b[1] = "rej" /\ e.r # "inv")) \union
       Flag("exc", e.r = "exc") \union
       Flag("keep", ~acc /\ e.w # "form" /\ ~Kept(ob, e)) \union
       Flag("nan", acc /\ ~NoNaN(e.cf)) \union
       Flag("imp", acc /\ b[1] = "acc" /\ ~right))

(* ------------------------------ layouts ---------------------------------- *)

LayCmp(L1, e) == /\ e.n = L1.n /\ e.mx = L1.cap /\ e.same = 1
                 /\ Len(e.pz) = Len(L1.pairs)
                 /\ \A i \in DOMAIN e.pz : \A k \in 1..4 : CSame(e.pz[i][k], L1.pairs[i][k])
                 /\ L1.set => REq(e.nw[1], L1.w) /\ REq(e.nw[2], L1.g)
LayAdopt(L1, e) == [L1 EXCEPT !.n = e.n, !.pairs = e.pz, !.w = e.nw[1], !.g = e.nw[2]]
LayEmpty(kind, cap) == Y!Empty(cap) @@ [kind |-> kind, w |-> Zero, g |-> One, set |-> FALSE, des |-> [set |-> FALSE]]
ArgPairs(a) == [i \in 1..(Len(a) \div 2) |-> Cx(a, 2 * i - 1)]

EvLayNew(e) == LET L1 == LayEmpty(e.k, e.cap) IN
  Result(objs, (e.o :> LayAdopt(L1, e)) @@ lays, memo, Flag("lay", ~LayCmp(L1, e)))

EvLayAdd(e) ==
  LET L1 == lays[e.o]
      adds == e.w \in {"one", "conj", "pair"}
      a == ArgPairs(e.a)
      can == ~adds \/ Y!CanAdd(L1, e.w, a)
      L2 == CASE adds -> IF can THEN Y!AddTo(L1, e.w, a) ELSE L1
              [] e.w = "reset" -> Y!Clear(L1)
              [] e.w = "store" -> Y!Attach(L1, CHOOSE k \in 0..64 : REq(ROfInt(k), e.a[1]))
              [] e.w = "normal" -> [L1 EXCEPT !.w = e.a[1], !.g = e.a[2], !.set = TRUE]
  IN Result(objs, [lays EXCEPT ![e.o] = [LayAdopt(L2, e) EXCEPT !.des = IF adds THEN [set |-> FALSE] ELSE @]], memo,
       Flag("lay", e.r # (IF can THEN "ok" ELSE "inv") \/ ~LayCmp(L2, e)))

EvLayGet(e) ==
  LET L1 == lays[e.o]
      ok(x) == IF Y!CanGet(L1, x.i) THEN x.r = "ok" /\ x.r2 = "ok" /\ Len(x.pz) = 1 /\ (\A k \in 1..4 : CSame(x.pz[1][k], Y!Get(L1, x.i)[k]))
               ELSE x.r = "inv" /\ x.r2 = "inv"
  IN Result(objs, lays, memo, Flag("lay", ~LayCmp(L1, e) \/ \E i \in DOMAIN e.ix : ~ok(e.ix[i])))

(* Analog prototypes.  The response of a layout with its normalisation:     *)
(* factors with zeros at infinity are 1 / (s - p).                          *)
AFactor(p, z, s) == LET den == CSub(s, p) IN IF CFinite(z) THEN CDiv(CSub(s, z), den) ELSE CDiv(COne, den)
AnResp(pz, s) == FoldLeft(LAMBDA h, p : LET f1 == CMul(h, AFactor(p[1], p[2], s)) IN
                            IF IsSingle(p) THEN f1 ELSE CMul(f1, AFactor(p[3], p[4], s)), COne, pz)
ZerosFinite(pz) == FoldLeft(LAMBDA k, p : k + (IF CFinite(p[2]) THEN 1 ELSE 0) + (IF ~IsSingle(p) /\ CFinite(p[4]) THEN 1 ELSE 0), 0, pz)

KindFam(k) == CASE k \in {"BWLP", "BWLS"} -> "BW" [] k \in {"C1LP", "C1LS"} -> "C1" [] k \in {"C2LP", "C2LS"} -> "C2"
KindShelf(k) == k \in {"BWLS", "C1LS", "C2LS"}
DesignReq(kind, ord, a) ==
  [fam |-> KindFam(kind), kd |-> IF KindShelf(kind) THEN "LS" ELSE "LP", n |-> ord, f |-> R("0.25"), w |-> Zero,
   g |-> IF KindShelf(kind) THEN a[1] ELSE Zero,
   r |-> IF KindFam(kind) = "BW" THEN Zero ELSE a[Len(a)]]
\* |K|^2 such that the response at the normalisation frequency is the normalisation gain
AnalogOk(p, e) ==
  LET pz == e.pz
      \* numerator and denominator at infinity cancel if there are as many zeros as poles
      atInf == IF ZerosFinite(pz) = p.n THEN One ELSE Zero
      ref == IF IsShelf(p.kd) THEN atInf ELSE CAbs(AnResp(pz, <<Zero, Zero>>))
      k2 == RSq(RDiv(e.nw[2], ref))
      fs == ProtoFreqs(p)
      at(u) == RMul(k2, CAbs2(AnResp(pz, <<Zero, u>>)))
  IN \A i \in DOMAIN fs : LET w == Law(p, fs[i]) IN Near(at(fs[i]), w, RAdd(RMul(R("1e-7"), w), R("1e-15")))
AnalogShape(p, e) ==
  /\ e.n = p.n
  /\ Len(e.pz) = Y!Pairs(p.n)
  /\ \A i \in DOMAIN e.pz : LET q == e.pz[i] IN
       /\ RLt(q[1][1], Zero)
       /\ IF i = Len(e.pz) /\ p.n % 2 = 1 THEN IsSingle(q) \/ (IsNought(q[3][1]) /\ IsNought(q[3][2])) ELSE RLt(q[3][1], Zero) /\ RootsMatch(q[1], q[3]) /\ (CFinite(q[2]) => RootsMatch(q[2], q[4]))
  /\ IsShelf(p.kd) => ZerosFinite(e.pz) = p.n

DesignDecide(kind, cap, ord, a) ==
  LET p == DesignReq(kind, ord, a) IN
  IF ord < 0 \/ ord > cap \/ (ord > 0 /\ (HasNaN(a) \/ (p.fam # "BW" /\ ~RPos(p.r)))) THEN "rej"
  ELSE IF ord = 0 \/ ~Regular([p EXCEPT !.f = R("0.2")]) THEN "any" ELSE "acc"

EvDesign(e) ==
  LET L1 == lays[e.o]
      p == DesignReq(L1.kind, e.ord, e.a)
      d == DesignDecide(L1.kind, L1.cap, e.ord, e.a)
      acc == e.r = "ok"
      bad == Flag("adec", (d = "acc" /\ ~acc) \/ (d = "rej" /\ e.r # "inv")) \union
             Flag("ana", acc /\ d = "acc" /\ (~AnalogShape(p, e) \/ ~AnalogOk(p, e))) \union
             Flag("ana", acc /\ (e.mx # L1.cap \/ e.same # 1))
  IN Result(objs, [lays EXCEPT ![e.o] = [LayAdopt(@, e) EXCEPT !.set = FALSE, !.des = IF acc /\ d = "acc" THEN [set |-> TRUE, p |-> p] ELSE [set |-> FALSE]]], memo, bad)

\* digital layout -> rows, the whole gain on the first
PairRow(p) == TwoRow(p[1], p[2], p[3], p[4], One)
DigRows(pz) == [i \in DOMAIN pz |-> PairRow(pz[i])]
DigKind(an, how) == IF IsShelf(an) THEN (CASE how = "LP" -> "LS" [] how = "HP" -> "HS" [] how = "BP" -> "BH" [] OTHER -> "BS") ELSE how
Mag1(u) == RLt(CAbs(u), One)
DigitalOk(p, how, e) ==
  LET band == how \in {"BP", "BS"}
      n == IF band THEN 2 * p.n ELSE p.n
      rows == DigRows(e.pz)
      f == RDiv(e.nw[1], RMul(Two, Pi))
      k == RDiv(e.nw[2], CAbs(Resp(rows, f)))
      cf == [rows EXCEPT ![1] = Scaled(@, k)]
      pd == [p EXCEPT !.kd = DigKind(p.kd, how), !.f = e.a[1], !.w = IF band THEN e.a[2] ELSE Zero]
      \* a band shelf is normalised by the filter, not by the transform: the shape is that of the law
      shape == [rows EXCEPT ![1] = Scaled(@, RDiv(RefGain(pd), Resp(rows, RefFreq(pd))[1]))]
  IN /\ e.n = n /\ Len(e.pz) = Y!Pairs(n)
     /\ \A i \in DOMAIN e.pz : RootsMatch(e.pz[i][1], e.pz[i][3]) /\ Mag1(e.pz[i][1]) /\ Mag1(e.pz[i][3])
     /\ CountPoles(e.pz) = n
     /\ CASE ~(IsShelf(p.kd) /\ band) -> LawBroken(pd, cf) = {}
          [] pd.kd = "BH" -> LawBroken(pd, shape) = {}
          [] OTHER -> TRUE
     \* the gain of the prototype at its normalisation frequency
     /\ (IsShelf(p.kd) /\ band) \/ REq(e.nw[2], lays[e.src].g)
TransformDecide(L1, src, how, a) ==
  LET n == IF how \in {"BP", "BS"} THEN 2 * src.n ELSE src.n
      p == [src.des.p EXCEPT !.kd = IF how \in {"BP", "BS"} THEN how ELSE src.des.p.kd, !.f = a[1], !.w = IF Len(a) > 1 THEN a[2] ELSE Zero, !.g = R("20"), !.r = One]
  IN IF n > L1.cap \/ RLt(a[1], Zero) \/ ~RLt(a[1], Half) \/ (Len(a) > 1 /\ ~RPos(a[2])) THEN "rej"
     ELSE IF Regular(p) THEN "acc" ELSE "any"
EvTransform(e) ==
  LET L1 == lays[e.o]
      src == lays[e.src]
      acc == e.r = "ok"
      d == IF src.des.set THEN TransformDecide(L1, src, e.w, e.a) ELSE "any"
      bad == IF d = "any" THEN {} ELSE
             Flag("adec", (d = "acc" /\ ~acc) \/ (d = "rej" /\ e.r # "inv")) \union
             (IF acc /\ d = "acc" THEN Flag("dig", e.mx # L1.cap \/ e.same # 1 \/ ~DigitalOk(src.des.p, e.w, e)) ELSE {})
  IN Result(objs, [lays EXCEPT ![e.o] = [LayAdopt(@, e) EXCEPT !.set = FALSE]], memo, bad)

EvCrash(e) == Result(objs, lays, memo, {"crash"})

Apply(e) ==
  CASE e.e = "N" -> EvNew(e)
    [] e.e = "S" -> EvSetup(e)
    [] e.e = "F" -> EvFilter(e)
    [] e.e = "R" -> EvReset(e)
    [] e.e \in {"C", "M"} -> EvCopy(e)
    [] e.e = "A" -> EvAssign(e)
    [] e.e = "D" -> EvDestroy(e)
    [] e.e = "P" -> EvLook(e)
    [] e.e = "W" -> EvLookAll(e)
    [] e.e = "H" -> EvResp(e)
    [] e.e = "h" -> EvRespStage(e)
    [] e.e \in {"Z", "z"} -> EvPoleZero(e)
    [] e.e = "f" -> EvForm(e)
    [] e.e = "I" -> EvIndex(e)
    [] e.e = "G" -> EvGetters(e)
    [] e.e = "T" -> EvState(e)
    [] e.e = "B" -> EvBiquad(e)
    [] e.e = "LN" -> EvLayNew(e)
    [] e.e = "LA" -> EvLayAdd(e)
    [] e.e = "LG" -> EvLayGet(e)
    [] e.e = "LD" -> EvDesign(e)
    [] e.e = "LT" -> EvTransform(e)
    [] e.e = "crash" -> EvCrash(e)

Empty == [x \in {} |-> x]

TraceInit == /\ tr \in DOMAIN Traces
             /\ l = 1
             /\ objs = Empty /\ lays = Empty /\ memo = Empty

TraceNext ==
  /\ l <= Len(Traces[tr].ev)
  /\ LET e == Traces[tr].ev[l]
         r == Apply(e)
         bad == r.bad \union Common(e)
     IN /\ objs' = r.objs /\ lays' = r.lays /\ memo' = r.memo
        /\ IF bad = {} THEN TRUE ELSE PrintT(<<"MISMATCH", tr, l, bad>>)
  /\ l' = l + 1
  /\ UNCHANGED tr

TraceSpec == TraceInit /\ [][TraceNext]_vars

\* every event of every trace was explained or reported: one state each
View == <<tr, l>>
Total == FoldLeft(LAMBDA k, t : k + Len(t.ev) + 1, 0, Traces)
AllConsumed == TLCGet("stats").distinct = Total
=============================================================================
