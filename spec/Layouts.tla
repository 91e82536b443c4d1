------------------------------ MODULE Layouts ------------------------------
(***************************************************************************)
(* Pole/zero layouts: a list of pairs <<pole1, zero1, pole2, zero2>> of    *)
(* complex numbers, the number of poles, and the number it can hold.       *)
(* Complex arithmetic is a parameter: doubles for replaying the library    *)
(* (TraceIir), a handful of symbolic values for model checking (MC_Layout).*)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Conj(_), IsReal(_), IsZero(_), IsNan(_), Same(_, _), Nought

Empty(cap) == [cap |-> cap, n |-> 0, pairs |-> <<>>]
Pairs(n) == (n + 1) \div 2

\* two complex numbers which a pair may consist of
Matched(u, v) == IF ~IsReal(u) THEN Same(v, Conj(u)) ELSE IsReal(v) /\ ~IsZero(u) /\ ~IsZero(v)

\* a is the list of complex arguments
CanAdd(L, how, a) ==
  /\ L.n % 2 = 0
  /\ \A i \in DOMAIN a : ~IsNan(a[i])
  /\ CASE how = "one"  -> L.n + 1 <= L.cap /\ IsReal(a[1]) /\ IsReal(a[2])
       [] how = "conj" -> L.n + 2 <= L.cap
       [] how = "pair" -> L.n + 2 <= L.cap /\ Matched(a[1], a[2]) /\ Matched(a[3], a[4])

AddTo(L, how, a) ==
  CASE how = "one"  -> [L EXCEPT !.n = @ + 1, !.pairs = Append(@, <<a[1], a[2], Nought, Nought>>)]
    [] how = "conj" -> [L EXCEPT !.n = @ + 2, !.pairs = Append(@, <<a[1], a[2], Conj(a[1]), Conj(a[2])>>)]
    [] how = "pair" -> [L EXCEPT !.n = @ + 2, !.pairs = Append(@, <<a[1], a[3], a[2], a[4]>>)]

\* other storage for cap poles: nothing of the old one is kept
Attach(L, cap) == [L EXCEPT !.cap = cap, !.n = 0, !.pairs = <<>>]
Clear(L) == [L EXCEPT !.n = 0, !.pairs = <<>>]
CanGet(L, i) == 0 <= i /\ i < Pairs(L.n)
Get(L, i) == L.pairs[i + 1]
=============================================================================
