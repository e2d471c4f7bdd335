------------------------------- MODULE Bundled -------------------------------
(***************************************************************************)
(* Bundled transliterators (C21): the register of their names, and what loading    *)
(* one and testing one give.                                                       *)
(*                                                                                 *)
(* bound    set of <<name, class>>: what every registered name stands for          *)
(* Directories of transliterators are sequences of [n |-> name, c |-> class,       *)
(* m |-> whether the module of another transliterator has the module's name].      *)
(***************************************************************************)
EXTENDS Naturals, Sequences
NamesOf(b) == { e[1] : e \in b }
\* Adding directory q to register b must be refused.
Clash(b, q) == \E i \in DOMAIN q : \/ q[i].n \in NamesOf(b) \/ q[i].m
                                   \/ \E j \in 1..i - 1 : q[j].n = q[i].n
Entries(q) == { <<q[i].n, q[i].c>> : i \in DOMAIN q }
\* What may be registered after adding q to b: a refused directory may leave some of
\* its new names.
Unique(b) == \A x, y \in b : x[1] = y[1] => x = y
May(b, q, new) ==
  /\ b \subseteq new /\ new \subseteq b \cup Entries(q) /\ Unique(new)
  /\ Clash(b, q) \/ new = b \cup Entries(q)
\* Tests pass if the real output is the expected one for every input.
Passes(tests) == \A k \in DOMAIN tests : tests[k].st = "ok" /\ tests[k].real = tests[k].y
=============================================================================
