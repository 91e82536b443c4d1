----------------------------- MODULE MC_Layout -----------------------------
(***************************************************************************)
(* Pole/zero layouts of every small capacity, exhaustively, over a handful *)
(* of symbolic complex numbers: two reals, zero, two conjugates and a NaN. *)
(*   Fits     never more poles than the capacity, one pair per two poles   *)
(*   Real     every pair is a pair of conjugates, two reals, or a single   *)
(*            real one at the end: the coefficients made of it are real    *)
(*   NoNan    NaN never gets in                                            *)
(*   Grows    an accepted call appends one pair and keeps the others, a    *)
(*            rejected call changes nothing (C22)                          *)
(*   Full     an even layout with room for two takes any matching pair     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Cap

Nan == 99
\* <<real part, imaginary part>> with parts in a small alphabet
C == {<<0, 0>>, <<1, 0>>, <<-2, 0>>, <<1, 3>>, <<1, -3>>, <<Nan, 0>>}
Conj(u) == IF u[1] = Nan THEN u ELSE <<u[1], 0 - u[2]>>
IsNan(u) == u[1] = Nan
IsReal(u) == u[2] = 0
IsZero(u) == u = <<0, 0>>
Same(u, v) == ~IsNan(u) /\ ~IsNan(v) /\ u = v
Y == INSTANCE Layouts WITH Nought <- <<0, 0>>

VARIABLES lay, now
vars == <<lay, now>>
Init == lay = Y!Empty(Cap) /\ now = "new"
Try(how, a) == LET ok == Y!CanAdd(lay, how, a) IN
               /\ lay' = IF ok THEN Y!AddTo(lay, how, a) ELSE lay
               /\ now' = IF ok THEN "added" ELSE "rejected"
Next == \/ \E p \in C, z \in C : Try("one", <<p, z>>) \/ Try("conj", <<p, z>>)
        \/ \E p \in C, q \in C, z \in C, w \in C : Try("pair", <<p, q, z, w>>)
        \/ lay' = Y!Clear(lay) /\ now' = "cleared"
        \/ \E c \in 0..Cap : lay' = Y!Attach(lay, c) /\ now' = "cleared"
Spec == Init /\ [][Next]_vars

Matching(u, v) == Same(v, Conj(u)) \/ (IsReal(u) /\ IsReal(v))
Fits == lay.n <= lay.cap /\ Len(lay.pairs) = Y!Pairs(lay.n)
Real == \A i \in DOMAIN lay.pairs : LET q == lay.pairs[i] IN
          IF 2 * i <= lay.n THEN Matching(q[1], q[3]) /\ Matching(q[2], q[4])
          ELSE IsReal(q[1]) /\ IsReal(q[2]) /\ q[3] = <<0, 0>> /\ q[4] = <<0, 0>>
NoNan == \A i \in DOMAIN lay.pairs : \A k \in 1..4 : ~IsNan(lay.pairs[i][k])
Grows == [][CASE now' = "rejected" -> lay' = lay
              [] now' = "added" -> /\ Len(lay'.pairs) = Len(lay.pairs) + 1
                                   /\ \A i \in DOMAIN lay.pairs : lay'.pairs[i] = lay.pairs[i]
                                   /\ \A i \in 0..(Y!Pairs(lay'.n) - 1) : Y!CanGet(lay', i) /\ Y!Get(lay', i) = lay'.pairs[i + 1]
              [] OTHER -> lay'.n = 0 /\ lay'.pairs = <<>>]_vars
Full == lay.n % 2 = 0 /\ lay.n + 2 <= lay.cap => Y!CanAdd(lay, "conj", <<<<1, 3>>, <<-2, 0>>>>) /\ Y!CanAdd(lay, "pair", <<<<1, 0>>, <<-2, 0>>, <<1, 3>>, <<1, -3>>>>)
Edge == /\ ~Y!CanGet(lay, -1) /\ ~Y!CanGet(lay, Y!Pairs(lay.n))
        /\ lay.n % 2 = 1 => \A u \in C : ~Y!CanAdd(lay, "one", <<u, u>>) /\ ~Y!CanAdd(lay, "conj", <<u, u>>) /\ ~Y!CanAdd(lay, "pair", <<u, u, u, u>>)
=============================================================================
