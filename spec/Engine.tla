------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* The signal path: one second order section in each of the three          *)
(* topologies, and the cascade.  A section is the row                      *)
(* <<a0, a1, a2, b0, b1, b2>> with everything but a0 divided by a0; a      *)
(* delay line is a sequence of stored values.                              *)
(*                                                                         *)
(* Number type and arithmetic are parameters: small integers for           *)
(* exhaustive model checking (MC_Engine, MC_Life), doubles for replaying   *)
(* what the library did (TraceIir).                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt
CONSTANTS Add(_, _), Sub(_, _), Mul(_, _), Nil

Topologies == {"D1", "D2", "T2"}

\* the delay line of a section at power on
Quiet(st) == IF st = "D1" THEN <<Nil, Nil, Nil, Nil>> ELSE <<Nil, Nil>>
QuietAll(st, n) == [i \in 1..n |-> Quiet(st)]

(* Direct form I.  d = <<x[n-1], x[n-2], y[n-1], y[n-2]>>                   *)
(* y = b0 x + b1 x1 + b2 x2 - a1 y1 - a2 y2                                 *)
StepD1(c, d, x) ==
  LET y == Sub(Sub(Add(Add(Mul(c[4], x), Mul(c[5], d[1])), Mul(c[6], d[2])), Mul(c[2], d[3])), Mul(c[3], d[4]))
  IN <<y, <<x, d[1], y, d[3]>>>>

(* Direct form II.  d = <<v[n-1], v[n-2]>>                                  *)
(* v = x - a1 v1 - a2 v2;  y = b0 v + b1 v1 + b2 v2                         *)
StepD2(c, d, x) ==
  LET v == Sub(Sub(x, Mul(c[2], d[1])), Mul(c[3], d[2]))
      y == Add(Add(Mul(c[4], v), Mul(c[5], d[1])), Mul(c[6], d[2]))
  IN <<y, <<v, d[1]>>>>

(* Transposed direct form II.  d = <<s1, s2>>                               *)
(* y = s1 + b0 x;  s1' = s2 + b1 x - a1 y;  s2' = b2 x - a2 y               *)
StepT2(c, d, x) ==
  LET y == Add(d[1], Mul(c[4], x))
  IN <<y, <<Sub(Add(d[2], Mul(c[5], x)), Mul(c[2], y)), Sub(Mul(c[6], x), Mul(c[3], y))>>>>

Step(st, c, d, x) == CASE st = "D1" -> StepD1(c, d, x)
                       [] st = "D2" -> StepD2(c, d, x)
                       [] st = "T2" -> StepT2(c, d, x)

\* one sample through all sections in order: <<output, delay lines>>
Cascade(st, cf, dl, x) ==
  FoldLeft(LAMBDA acc, i : LET q == Step(st, cf[i], dl[i], acc[1]) IN <<q[1], Append(acc[2], q[2])>>,
           <<x, <<>>>>, [i \in 1..Len(cf) |-> i])

\* a sequence of samples: <<outputs, delay lines>>
Run(st, cf, dl, xs) ==
  FoldLeft(LAMBDA acc, x : LET q == Cascade(st, cf, acc[2], x) IN <<Append(acc[1], q[1]), q[2]>>, <<<<>>, dl>>, xs)
=============================================================================
