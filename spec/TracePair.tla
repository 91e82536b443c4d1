------------------------------ MODULE TracePair ------------------------------
(***************************************************************************)
(* The same script on two builds of the library: x with exceptions, y with *)
(* IIR1_NO_EXCEPTIONS.  Two machines take the same steps until a call is   *)
(* rejected: then the first one throws and the second one ends by abort()  *)
(* (signal 6).  A trace is a sequence of pairs [x, y] of events; y is      *)
(* [e |-> "crash", sig |-> 6] where the program ended, "none" where        *)
(* nothing came after that.                                                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS TraceFile, Focus

Traces == ndJsonDeserialize(TraceFile)

VARIABLES tr, l, alive
vars == <<tr, l, alive>>

\* did the call throw?
Threw(x) == \/ "r" \in DOMAIN x /\ x.r # "ok"
            \/ "q" \in DOMAIN x /\ \E i \in DOMAIN x.q : x.q[i] # 0
            \/ "ix" \in DOMAIN x /\ \E i \in DOMAIN x.ix : x.ix[i].r # "ok"
Invalid(x) == \/ "r" \in DOMAIN x /\ x.r = "inv"
              \/ "q" \in DOMAIN x /\ \E i \in DOMAIN x.q : x.q[i] = 1
              \/ "ix" \in DOMAIN x /\ \E i \in DOMAIN x.ix : x.ix[i].r = "inv"
Aborted(y) == y.e = "crash" /\ y.sig = 6

Flag(label, wrong) == IF label \in Focus /\ wrong THEN {label} ELSE {}
\* what is wrong with a pair of events
Wrong(x, y) ==
  IF x.e = "crash" \/ x.e = "none" THEN {"crash"}
  ELSE IF ~alive THEN {}
  ELSE IF Invalid(x) THEN Flag("abort", ~Aborted(y))
  ELSE IF Threw(x) THEN {}
  ELSE Flag("same", x # y)

TraceInit == tr \in DOMAIN Traces /\ l = 1 /\ alive = TRUE
TraceNext ==
  /\ l <= Len(Traces[tr].ev)
  /\ LET p == Traces[tr].ev[l] bad == Wrong(p.x, p.y) IN
       /\ IF bad = {} THEN TRUE ELSE PrintT(<<"MISMATCH", tr, l, bad>>)
       /\ alive' = (alive /\ ~Threw(p.x) /\ p.y.e # "crash")
  /\ l' = l + 1
  /\ UNCHANGED tr
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == <<tr, l>>
Total == FoldLeft(LAMBDA k, t : k + Len(t.ev) + 1, 0, Traces)
AllConsumed == TLCGet("stats").distinct = Total
=============================================================================
