----------------------------- MODULE MC_Engine -----------------------------
(***************************************************************************)
(* The signal path over small integers, exhaustively.  A behaviour feeds   *)
(* an input sequence to cascades of N sections in the three topologies,    *)
(* all with the same coefficients.  Checked after every sample:            *)
(*   Equivalent  all topologies give what the difference equations of the  *)
(*               sections, written over the whole history, give (C01)      *)
(*   Linear      the response to 2x is twice the response to x             *)
(*   Causal      delay lines are functions of the inputs since power on:   *)
(*               the run of the sequence gives the delay lines reached     *)
(*               step by step                                              *)
(*   Delayed     k zeros in front delay the output by k samples            *)
(*   Restart     after a reset in the middle the outputs are those of a    *)
(*               new filter with the remaining inputs (C02)                *)
(*   Retuned     after a change of coefficients in the middle the output   *)
(*               is that of the new equations on the old delay lines (C03) *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS N, Len0, Coefs, Inputs

Plus(a, b) == a + b
Minus(a, b) == a - b
Times(a, b) == a * b
E == INSTANCE Engine WITH Add <- Plus, Sub <- Minus, Mul <- Times, Nil <- 0

Rows == {<<1, a1, a2, b0, b1, b2>> : a1 \in Coefs, a2 \in Coefs, b0 \in Coefs, b1 \in Coefs, b2 \in Coefs}

(* The difference equation of one section over a whole input sequence,     *)
(* y[n] = b0 x[n] + b1 x[n-1] + b2 x[n-2] - a1 y[n-1] - a2 y[n-2].         *)
At(s, n) == IF n >= 1 THEN s[n] ELSE 0
Section(c, xs) == FoldLeft(LAMBDA ys, n : Append(ys, c[4] * At(xs, n) + c[5] * At(xs, n - 1) + c[6] * At(xs, n - 2) - c[2] * At(ys, n - 1) - c[3] * At(ys, n - 2)),
                           <<>>, [n \in 1..Len(xs) |-> n])
Series(cf, xs) == FoldLeft(LAMBDA s, c : Section(c, s), xs, cf)

\* for the configurations
Trits == {-1, 0, 1}
Bits == {0, 1}

VARIABLES cf, xs, dl, ys
vars == <<cf, xs, dl, ys>>
Tops == <<"D1", "D2", "T2">>

Init == /\ cf \in [1..N -> Rows]
        /\ xs = <<>>
        /\ dl = [t \in 1..3 |-> E!QuietAll(Tops[t], N)]
        /\ ys = [t \in 1..3 |-> <<>>]

Next == /\ Len(xs) < Len0
        /\ \E x \in Inputs :
             LET q == [t \in 1..3 |-> E!Cascade(Tops[t], cf, dl[t], x)] IN
             /\ xs' = Append(xs, x)
             /\ dl' = [t \in 1..3 |-> q[t][2]]
             /\ ys' = [t \in 1..3 |-> Append(ys[t], q[t][1])]
        /\ UNCHANGED cf

Spec == Init /\ [][Next]_vars

Equivalent == \A t \in 1..3 : ys[t] = Series(cf, xs)
RunOf(t, c, d, s) == E!Run(Tops[t], c, d, s)
Quiet(t) == E!QuietAll(Tops[t], N)
Linear == \A t \in 1..3 : RunOf(t, cf, Quiet(t), [i \in DOMAIN xs |-> 2 * xs[i]])[1] = [i \in DOMAIN xs |-> 2 * ys[t][i]]
Causal == \A t \in 1..3 : RunOf(t, cf, Quiet(t), xs) = <<ys[t], dl[t]>>
Delayed == \A t \in 1..3 : RunOf(t, cf, Quiet(t), <<0, 0>> \o xs)[1] = <<0, 0>> \o ys[t]
Restart == \A t \in 1..3 : \A k \in 0..Len(xs) :
             RunOf(t, cf, Quiet(t), SubSeq(xs, k + 1, Len(xs)))[1] = Series(cf, SubSeq(xs, k + 1, Len(xs)))
\* direct form I keeps inputs and outputs themselves, so after a change of coefficients it goes on
\* with the new equation on the old samples
Retuned == N = 1 => \A k \in 0..Len(xs) : \A c2 \in {<<1, 1, -1, 1, 1, 0>>, <<1, 0, 0, 1, 0, 0>>} :
             LET old == RunOf(1, cf, Quiet(1), SubSeq(xs, 1, k))
                 new == RunOf(1, <<c2>>, old[2], SubSeq(xs, k + 1, Len(xs)))[1]
                 want == FoldLeft(LAMBDA s, n : Append(s, c2[4] * At(xs, n) + c2[5] * At(xs, n - 1) + c2[6] * At(xs, n - 2) - c2[2] * At(s, n - 1) - c2[3] * At(s, n - 2)),
                                  SubSeq(ys[1], 1, k), [n \in 1..(Len(xs) - k) |-> k + n])
             IN SubSeq(ys[1], 1, k) \o new = want
=============================================================================
