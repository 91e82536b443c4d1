----------------------------- MODULE MC_Cache -----------------------------
(***************************************************************************)
(* Setup with a remembered analog prototype, exhaustively, over symbolic   *)
(* parameters.  Two filters of the same type live side by side:            *)
(*   filter A  designs everything anew for every call                      *)
(*   filter B  keeps the analog prototype, and the parameters it was       *)
(*             designed for, and only redesigns it when one of the fields  *)
(*             in Keyed differs; a design that fails half way leaves its   *)
(*             traces in the prototype but none in the coefficients        *)
(* Checked after every call:                                               *)
(*   Same      A and B run the same coefficients (C04)                     *)
(*   LastGood  the coefficients are those of the last accepted call, with  *)
(*             unused sections passing the signal (C04, C16, C25)          *)
(*   Refused   a call that is rejected changes nothing a user hears (C16)  *)
(*   Agree     both accept the same calls (C15)                            *)
(* With Keyed short of one field TLC finds the history on which the two    *)
(* filters differ.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Cap, Keyed

Orders == -1..(Cap + 1)
Freqs == {"f1", "f2", "bad"}
Gains == {"g1", "g2", "nan"}
Ripples == {"r1", "r2", "neg"}
Calls == [n : Orders, f : Freqs, g : Gains, r : Ripples]

\* what the prototype depends on
Proto(c) == [n |-> c.n, g |-> c.g, r |-> c.r]
None == [n |-> 0, g |-> "none", r |-> "none"]

ValidOrder(c) == 0 <= c.n /\ c.n <= Cap
ValidValues(c) == c.g # "nan" /\ c.r # "neg"
ValidFreq(c) == c.f # "bad"
Accepted(c) == ValidOrder(c) /\ (c.n = 0 \/ ValidValues(c)) /\ ValidFreq(c)

\* a cascade: the sections in use, the others pass the signal
Sections(n) == (n + 1) \div 2
Cascade(proto, n, f) == [i \in 1..Sections(Cap) |-> IF i <= Sections(n) THEN <<proto, f, i>> ELSE <<"pass">>]
Ideal(c) == Cascade(IF c.n = 0 THEN None ELSE Proto(c), c.n, c.f)

NoCall == [n |-> 0, f |-> "none", g |-> "none", r |-> "none"]

VARIABLES a, b, proto, key, last, now
vars == <<a, b, proto, key, last, now>>
New0 == Cascade(None, 0, "f1")
Init == a = New0 /\ b = New0 /\ proto = None /\ key = None /\ last = NoCall /\ now = [ok |-> FALSE, call |-> NoCall]

\* do the remembered parameters serve for the call c
Serves(c) == \A k \in Keyed : key[k] = Proto(c)[k]
\* B: order, then prototype, then transform, then coefficients
Setup(c) ==
  LET right == ValidOrder(c) /\ (c.n = 0 \/ ValidValues(c))
      hit == Serves(c)
      p == IF c.n = 0 THEN None ELSE IF hit THEN proto ELSE Proto(c)
      ok == right /\ ValidFreq(c)
  IN /\ proto' = IF right THEN p ELSE proto
     /\ key' = IF ~right \/ hit THEN key ELSE IF c.n = 0 THEN None ELSE Proto(c)
     /\ b' = IF ok THEN Cascade(p, p.n, c.f) ELSE b
     /\ a' = IF Accepted(c) THEN Ideal(c) ELSE a
     /\ last' = IF Accepted(c) THEN c ELSE last
     /\ now' = [ok |-> ok, call |-> c]
Next == \E c \in Calls : Setup(c)
Spec == Init /\ [][Next]_vars
View == <<a, b, proto, key, last>>

Same == a = b
LastGood == IF last = NoCall THEN b = New0 ELSE b = Ideal(last)
Agree == [][now'.ok = Accepted(now'.call)]_vars
Refused == [][now'.ok \/ b' = b]_vars
Passing == \A i \in 1..Sections(Cap) : last # NoCall /\ i > Sections(last.n) => b[i] = <<"pass">>
=============================================================================
