------------------------------- MODULE Graph -------------------------------
(***************************************************************************)
(* The search graph of a transliterator and the best-first search on it.       *)
(*                                                                           *)
(* Abstractly the graph is the prefix tree of the rules' tokens: a token node   *)
(* is a non-empty prefix of the tokens of some rule, a leaf is a rule, the       *)
(* root is the empty prefix.  The specificity beneath a node is the greatest     *)
(* N of the rules beneath it (the least cost).                                   *)
(***************************************************************************)
EXTENDS GT

Prefix(q, n) == SubSeq(q, 1, n)
Prefixes(g) == UNION { { Prefix(g.rules[k].t, n) : n \in 0..Len(g.rules[k].t) } : k \in DOMAIN g.rules }
IsPrefixOf(q, w) == Len(q) <= Len(w) /\ Prefix(w, Len(q)) = q
RulesBeneath(g, q) == { k \in DOMAIN g.rules : IsPrefixOf(q, g.rules[k].t) }
RulesAtNode(g, q) == { k \in DOMAIN g.rules : g.rules[k].t = q }
SpecBeneath(g, q) == MaxOf({ N(g.rules[k]) : k \in RulesBeneath(g, q) })

\* Nodes the tokens at hand lead to from position i: prefixes that lie at i, and
\* the rules that end there.
ReachedPrefixes(g, ts, i) ==
  { q \in Prefixes(g) : i + Len(q) - 1 <= Len(ts) /\ \A k \in DOMAIN q : ts[i + k - 1] = q[k] }
ReachedRules(g, ts, i) == { k \in DOMAIN g.rules : g.rules[k].t \in ReachedPrefixes(g, ts, i) }
PathTo(g, k) == { Prefix(g.rules[k].t, n) : n \in 0..Len(g.rules[k].t) }
=============================================================================
