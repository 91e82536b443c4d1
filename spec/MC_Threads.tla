----------------------------- MODULE MC_Threads -----------------------------
(***************************************************************************)
(* Threads which each use an object of their own, interleaved between the  *)
(* steps of the calls: filter goes from section to section, setup designs  *)
(* a section and stores it, reset clears a delay line at a time.           *)
(*   Alone   whenever a thread is between two calls, its object is what    *)
(*           Life says of its own calls, one after the other, and so are   *)
(*           the samples it got (C07)                                      *)
(*   Ends    every call comes to its end, whatever the others do           *)
(* Common names what all threads have in common: nothing in the library;   *)
(* with the running value of filter ("value") or the section being         *)
(* designed ("design") in one place TLC finds the interleaving at which    *)
(* it shows.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS Threads, Calls, Top, Common

Plus(a, b) == a + b
Minus(a, b) == a - b
Times(a, b) == a * b
L == INSTANCE Life WITH Add <- Plus, Sub <- Minus, Mul <- Times, Nil <- 0, Unit <- 1

Cap == 2
Designs == {<<<<1, 1, 0, 1, 1, 0>>, <<1, 0, -1, 1, 0, 2>>>>, <<<<1, -1, 1, 2, 0, 1>>, <<1, 0, 0, 1, 0, 0>>>>}
Blank == <<1, 0, 0, 1, 0, 0>>

VARIABLES obj, hist, outs, call, at, value, design
vars == <<obj, hist, outs, call, at, value, design>>
\* where thread t keeps its running value, its section
V(t) == IF "value" \in Common THEN 0 ELSE t
D(t) == IF "design" \in Common THEN 0 ELSE t

Init == /\ obj = [t \in Threads |-> L!Fresh("F", FALSE, Top, Cap)]
        /\ hist = [t \in Threads |-> <<>>] /\ outs = [t \in Threads |-> <<>>]
        /\ call = [t \in Threads |-> <<"">>] /\ at = [t \in Threads |-> 0]
        /\ value = [t \in Threads \union {0} |-> 0] /\ design = [t \in Threads \union {0} |-> Blank]

Begin(t, c) == /\ call[t] = <<"">> /\ Len(hist[t]) < Calls
               /\ call' = [call EXCEPT ![t] = c] /\ at' = [at EXCEPT ![t] = 1]
               /\ value' = IF c[1] = "F" THEN [value EXCEPT ![V(t)] = c[2]] ELSE value
               /\ UNCHANGED <<obj, hist, outs, design>>
\* one section
Work(t) == LET c == call[t] k == at[t] o == obj[t] IN
  /\ k \in 1..Cap
  /\ CASE c[1] = "F" -> LET q == L!E!Step(Top, o.cf[k], o.dl[k], value[V(t)]) IN
                        /\ value' = [value EXCEPT ![V(t)] = q[1]]
                        /\ obj' = [obj EXCEPT ![t].dl[k] = q[2]] /\ at' = [at EXCEPT ![t] = k + 1]
                        /\ UNCHANGED design
       [] c[1] = "R" -> obj' = [obj EXCEPT ![t].dl[k] = L!E!Quiet(Top)] /\ at' = [at EXCEPT ![t] = k + 1] /\ UNCHANGED <<value, design>>
       [] c[1] = "S" -> design' = [design EXCEPT ![D(t)] = c[2][k]] /\ at' = [at EXCEPT ![t] = -k] /\ UNCHANGED <<value, obj>>
  /\ UNCHANGED <<hist, outs, call>>
Store(t) == /\ at[t] < 0
            /\ obj' = [obj EXCEPT ![t].cf[-at[t]] = design[D(t)]] /\ at' = [at EXCEPT ![t] = 1 - @]
            /\ UNCHANGED <<hist, outs, call, value, design>>
Finish(t) == /\ call[t] # <<"">> /\ at[t] = Cap + 1
             /\ outs' = IF call[t][1] = "F" THEN [outs EXCEPT ![t] = Append(@, value[V(t)])] ELSE outs
             /\ hist' = [hist EXCEPT ![t] = Append(@, call[t])]
             /\ call' = [call EXCEPT ![t] = <<"">>] /\ at' = [at EXCEPT ![t] = 0]
             /\ UNCHANGED <<obj, value, design>>
Possible == {<<"F", 1>>, <<"F", -2>>, <<"R">>} \union {<<"S", d>> : d \in Designs}
Step(t) == Work(t) \/ Store(t) \/ Finish(t)
Next == \E t \in Threads : Step(t) \/ \E c \in Possible : Begin(t, c)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

\* the calls of a thread, one after the other: <<object, samples>>
Tell(s, c) ==
  LET os == 1 :> s[1] IN
  CASE c[1] = "F" -> LET r == L!Filter(os, 1, <<c[2]>>) IN <<r[2][1], s[2] \o r[1]>>
    [] c[1] = "R" -> <<L!Reset(os, 1)[1], s[2]>>
    [] c[1] = "S" -> <<L!Accept(os, 1, c[2], Cap)[1], s[2]>>
Story(h) == FoldLeft(Tell, <<L!Fresh("F", FALSE, Top, Cap), <<>>>>, h)
Alone == \A t \in Threads : call[t] = <<"">> => <<obj[t], outs[t]>> = Story(hist[t])
Ends == \A t \in Threads : call[t] # <<"">> ~> call[t] = <<"">>
=============================================================================
