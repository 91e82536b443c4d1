------------------------------ MODULE MC_Life ------------------------------
(***************************************************************************)
(* All life cycles of a few filter objects, exhaustively, over small       *)
(* integers.  hist[o] is what object o has been through, told as if it     *)
(* were the only object there is: a copy starts with the history of its    *)
(* original.  Checked after every operation:                               *)
(*   Alone    every object is what its own history alone gives (C06, C07)  *)
(*   Silent   a filter that has just been reset or assigned to (pole       *)
(*            filters) has quiet delay lines (C02)                         *)
(*   OnlyOne  an operation changes the object it is called on, no other    *)
(* and TypeOK.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS Names, Depth, Pole, Top

Plus(a, b) == a + b
Minus(a, b) == a - b
Times(a, b) == a * b
L == INSTANCE Life WITH Add <- Plus, Sub <- Minus, Mul <- Times, Nil <- 0, Unit <- 1

Cap == 2
\* what setup may leave: coefficients of all sections, sections in use
Designs == {<<<<<<1, 1, 0, 1, 1, 0>>, <<1, 0, 0, 1, 0, 0>>>>, 1>>,
            <<<<<<1, -1, 1, 2, 0, 1>>, <<1, 0, 1, 1, 1, 1>>>>, 2>>}
New0 == L!Fresh("F", Pole, Top, Cap)

VARIABLES objs, hist, now
vars == <<objs, hist, now>>
Live == DOMAIN objs

\* one operation told from the point of view of one object
Tell(rec, h) ==
  CASE h[1] = "S" -> [rec EXCEPT !.cf = h[2][1], !.ns = h[2][2]]
    [] h[1] = "F" -> [rec EXCEPT !.dl = L!E!Run(Top, rec.cf, rec.dl, <<h[2]>>)[2]]
    [] h[1] = "Q" -> [rec EXCEPT !.dl = L!E!QuietAll(Top, Cap)]
Story(hs) == FoldLeft(Tell, New0, hs)

Without(f, o) == [p \in DOMAIN f \ {o} |-> f[p]]
Log(o, h) == (o :> h) @@ hist
Step(os, hs, o, what) == objs' = os /\ hist' = hs /\ now' = <<what, o>>

Make(o) == o \notin Live /\ Step(L!New(objs, o, New0), Log(o, <<>>), o, "N")
Tune(o, d) == o \in Live /\ Step(L!Accept(objs, o, d[1], d[2]), Log(o, Append(hist[o], <<"S", d>>)), o, "S")
Refuse(o) == o \in Live /\ Step(L!Reject(objs, o), hist, o, "X")
Play(o, x) == o \in Live /\ Step(L!Filter(objs, o, <<x>>)[2], Log(o, Append(hist[o], <<"F", x>>)), o, "F")
Calm(o) == o \in Live /\ Step(L!Reset(objs, o), Log(o, Append(hist[o], <<"Q">>)), o, "R")
CopyTo(o, s) == o \notin Live /\ s \in Live /\ Step(L!Copy(objs, o, s), Log(o, hist[s]), o, "C")
MoveTo(o, s) == o \notin Live /\ s \in Live /\ Step(L!Destroy(L!Copy(objs, o, s), s), Without(Log(o, hist[s]), s), o, "M")
Become(o, s) == o \in Live /\ s \in Live /\
                Step(L!Assign(objs, o, s), Log(o, IF Pole THEN Append(hist[s], <<"Q">>) ELSE hist[s]), o, "A")
Die(o) == o \in Live /\ Step(L!Destroy(objs, o), Without(hist, o), o, "D")

Length == FoldLeft(+, 0, [i \in 1..Cardinality(DOMAIN hist) |-> Len(hist[SetToSeq(DOMAIN hist)[i]])])
Init == objs = [x \in {} |-> x] /\ hist = [x \in {} |-> x] /\ now = <<"", "">>
Next == \E o \in Names :
          \/ Make(o) \/ Refuse(o) \/ Calm(o) \/ Die(o)
          \/ \E d \in Designs : Tune(o, d)
          \/ \E x \in {1, -1} : Play(o, x)
          \/ \E s \in Names : CopyTo(o, s) \/ MoveTo(o, s) \/ Become(o, s)
Spec == Init /\ [][Next]_vars
Bounded == \A o \in DOMAIN hist : Len(hist[o]) <= Depth
View == <<objs, hist>>

TypeOK == /\ DOMAIN objs = DOMAIN hist
          /\ \A o \in Live : Len(objs[o].cf) = Cap /\ Len(objs[o].dl) = Cap /\ objs[o].ns \in 0..Cap
Alone == \A o \in Live : objs[o] = Story(hist[o])
Silent == [][now'[1] = "R" \/ (now'[1] = "A" /\ Pole) => objs'[now'[2]].dl = L!E!QuietAll(Top, Cap)]_vars
OnlyOne == [][\A p \in DOMAIN objs : p # now'[2] => (p \in DOMAIN objs' /\ objs'[p] = objs[p]) \/ now'[1] = "M"]_vars
KeepsTuning == [][now'[1] \in {"F", "R", "X"} => objs'[now'[2]].cf = objs[now'[2]].cf /\ objs'[now'[2]].ns = objs[now'[2]].ns]_vars
KeepsHistory == [][now'[1] \in {"S", "X"} => objs'[now'[2]].dl = objs[now'[2]].dl]_vars
=============================================================================
