----------------------------- MODULE MCOrder -----------------------------
(***************************************************************************)
(* The order of rules (C25): the rules of the settings are taken one by one and   *)
(* put after every rule that requires at least as many tokens.  Whatever the       *)
(* rules, the result is the one that Ordered of GT defines.  2^cost is the          *)
(* fraction (n + 2) / (n + 1) for a rule of n tokens.                               *)
(***************************************************************************)
EXTENDS GT
CONSTANTS MaxRules, MaxSize
VARIABLES given,  \* rules of the settings; p tells them apart
          list    \* those taken so far, in order
R(k, n) == [p |-> <<k>>, pc |-> <<>>, pt |-> <<>>, t |-> [ j \in 1..n |-> 1 ], nt |-> <<>>, nc |-> <<>>]
Init == /\ \E m \in 0..MaxRules : \E f \in [1..m -> 1..MaxSize] : given = [ k \in 1..m |-> R(k, f[k]) ]
        /\ list = <<>>
Take == /\ Len(list) < Len(given)
        /\ LET r == given[Len(list) + 1]
               at == Cardinality({ k \in DOMAIN list : N(list[k]) >= N(r) })
           IN  list' = SubSeq(list, 1, at) \o <<r>> \o SubSeq(list, at + 1, Len(list))
        /\ UNCHANGED given
Spec == Init /\ [][Take]_<<given, list>> /\ WF_<<given, list>>(Take)
AsDefined == list = Ordered(SubSeq(given, 1, Len(list)))
Decreasing == \A i, j \in DOMAIN list : i < j => N(list[i]) >= N(list[j])
TiesKept == \A i, j \in DOMAIN list : (i < j /\ N(list[i]) = N(list[j])) => list[i].p[1] < list[j].p[1]
EachOnce == { list[k].p[1] : k \in DOMAIN list } = 1..Len(list)
\* Lower cost exactly for more tokens; positive, and at most 1.
Num(r) == N(r) + 2
Den(r) == N(r) + 1
Costs == \A i, j \in DOMAIN list :
           /\ Num(list[i]) > Den(list[i]) /\ Num(list[i]) <= 2 * Den(list[i])
           /\ (Num(list[i]) * Den(list[j]) < Num(list[j]) * Den(list[i])) <=> N(list[i]) > N(list[j])
Ends == <>(Len(list) = Len(given))
=============================================================================
