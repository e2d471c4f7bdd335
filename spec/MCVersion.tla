----------------------------- MODULE MCVersion -----------------------------
(* Later is a strict total order, and not that of the versions written as text. *)
EXTENDS Version
CONSTANTS Parts, MaxLen
VARIABLES u, v, w
Vs == UNION { [1..n -> Parts] : n \in 1..MaxLen }
Init == u \in Vs /\ v \in Vs /\ w \in Vs
Next == UNCHANGED <<u, v, w>>
Spec == Init /\ [][Next]_<<u, v, w>>
Total == (u = v) # (Later(u, v) \/ Later(v, u))
Irreflexive == ~(Later(u, v) /\ Later(v, u))
Transitive == Later(u, v) /\ Later(v, w) => Later(u, w)
=============================================================================
