------------------------------ MODULE MCBundled ------------------------------
(* Any directories are added, in any order; directories are loaded class by class. *)
EXTENDS Bundled, FiniteSets
CONSTANTS Names, MaxLen, MaxAdds
VARIABLES bound, left, failed, n, old
vars == <<bound, left, failed, n, old>>
\* Class k of the n-th directory is <<n, k>>; the first ones are there from the start.
Dirs(m) == UNION { { [ i \in 1..k |-> [n |-> f[i], c |-> <<m, i>>, m |-> FALSE] ] : f \in [1..k -> Names] }
                   : k \in 0..MaxLen }
Init == /\ bound \in { {}, { <<x, <<0, 1>>>> : x \in Names } } \cup { {<<x, <<0, 1>>>>} : x \in Names }
        /\ left = <<>> /\ failed = FALSE /\ n = 0 /\ old = [b |-> {}, q |-> <<>>]
Begin == /\ left = <<>> /\ n < MaxAdds
         /\ \E q \in Dirs(n + 1) : left' = q /\ old' = [b |-> bound, q |-> q]
         /\ failed' = FALSE /\ n' = n + 1 /\ UNCHANGED bound
\* One class at a time, as they are found.
Class == /\ left # <<>>
         /\ (IF Head(left).n \in NamesOf(bound)
             THEN left' = <<>> /\ failed' = TRUE /\ UNCHANGED bound
             ELSE /\ bound' = bound \cup {<<Head(left).n, Head(left).c>>}
                  /\ left' = Tail(left) /\ UNCHANGED failed)
         /\ UNCHANGED <<n, old>>
Next == Begin \/ Class
Spec == Init /\ [][Next]_vars
\* The one-class-at-a-time register does what Bundled requires.
Uniq == Unique(bound)
Refused == left = <<>> => failed = Clash(old.b, old.q)
Allowed == left = <<>> /\ n > 0 => May(old.b, old.q, bound)
NeverReplaced == [][bound \subseteq bound']_bound
=============================================================================
