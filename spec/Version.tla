------------------------------ MODULE Version ------------------------------
(* Versions are sequences of numbers, compared part by part. *)
EXTENDS Naturals, Sequences
MinN(a, b) == IF a < b THEN a ELSE b
\* v is later than w: greater at the first part that differs, or longer.
Later(v, w) ==
  \/ \E k \in 1..MinN(Len(v), Len(w)) : v[k] > w[k] /\ \A j \in 1..k - 1 : v[j] = w[j]
  \/ Len(v) > Len(w) /\ \A j \in DOMAIN w : v[j] = w[j]
=============================================================================
