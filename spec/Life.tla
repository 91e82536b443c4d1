-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* Filter objects and what the operations of the public API do to them.    *)
(* A collection of objects is a function from object names to records      *)
(*   type  the class: objects of equal type can be copied to each other    *)
(*   pole  is it a pole filter (Butterworth, Chebyshev)                    *)
(*   st    topology of its delay lines                                     *)
(*   cf    coefficient rows of all sections the object has memory for      *)
(*   ns    number of sections in use                                       *)
(*   dl    delay lines, one per section                                    *)
(* Every operation changes the object it is called on and no other.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Add(_, _), Sub(_, _), Mul(_, _), Nil, Unit

E == INSTANCE Engine

Identity == <<Unit, Nil, Nil, Unit, Nil, Nil>>
Identities(n) == [i \in 1..n |-> Identity]

Fresh(type, pole, st, cap) ==
  [type |-> type, pole |-> pole, st |-> st, cf |-> Identities(cap),
   ns |-> IF pole THEN 0 ELSE cap, dl |-> E!QuietAll(st, cap)]

Put(objs, o, rec) == (o :> rec) @@ objs
Remove(objs, o) == [p \in DOMAIN objs \ {o} |-> objs[p]]

New(objs, o, rec) == Put(objs, o, rec)
\* an accepted setup: new coefficients, same delay lines
Accept(objs, o, cf, ns) == Put(objs, o, [objs[o] EXCEPT !.cf = cf, !.ns = ns])
\* a rejected setup
Reject(objs, o) == objs
\* filtering: all sections run, also those beyond ns
Filter(objs, o, xs) ==
  LET r == E!Run(objs[o].st, objs[o].cf, objs[o].dl, xs)
  IN <<r[1], Put(objs, o, [objs[o] EXCEPT !.dl = r[2]])>>
Reset(objs, o) == Put(objs, o, [objs[o] EXCEPT !.dl = E!QuietAll(objs[o].st, Len(objs[o].cf))])
\* copy construction duplicates everything
Copy(objs, o, src) == Put(objs, o, objs[src])
\* assignment: pole filters start with a quiet delay line, other objects take it over
Assign(objs, o, src) ==
  Put(objs, o, IF objs[o].pole THEN [objs[src] EXCEPT !.dl = E!QuietAll(objs[o].st, Len(objs[src].cf))]
                               ELSE objs[src])
Destroy(objs, o) == Remove(objs, o)
=============================================================================
