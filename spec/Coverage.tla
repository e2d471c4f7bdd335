------------------------------ MODULE Coverage ------------------------------
(***************************************************************************)
(* The coverage-checking transliterator: what has been visited.                *)
(* A node is [q, k]: a prefix of tokens q with k = 0, or rule k, q its tokens;   *)
(* an edge is named by the node it leads to.  What a run visits is a choice      *)
(* between least (lo) and most (hi): the best-first search may look at anything  *)
(* that the tokens lead to, but must go the way to the rule it finds.            *)
(***************************************************************************)
EXTENDS Graph
Nothing == [n |-> {}, e |-> {}, o |-> {}]
Join(a, b) == [n |-> a.n \cup b.n, e |-> a.e \cup b.e, o |-> a.o \cup b.o]
Within(a, b) == a.n \subseteq b.n /\ a.e \subseteq b.e /\ a.o \subseteq b.o
Root == [q |-> <<>>, k |-> 0]
TokenNode(q) == [q |-> q, k |-> 0]
RuleNode(g, k) == [q |-> g.rules[k].t, k |-> k]
AllNodes(g) == { TokenNode(q) : q \in Prefixes(g) } \cup { RuleNode(g, k) : k \in DOMAIN g.rules }
                 \cup {Root}
All(g) == [n |-> AllNodes(g), e |-> AllNodes(g) \ {Root}, o |-> DOMAIN g.om]

\* At most: what the tokens at hand lead to.
MostAt(g, ts, i) ==
  LET S == { TokenNode(q) : q \in ReachedPrefixes(g, ts, i) }
           \cup { RuleNode(g, k) : k \in ReachedRules(g, ts, i) } \cup {Root}
  IN [n |-> S, e |-> S \ {Root}, o |-> {}]
\* At least: the way to the rules found.
Way(g, k) ==
  LET S == { TokenNode(q) : q \in PathTo(g, k) } \cup { RuleNode(g, k) }
  IN [n |-> S, e |-> S \ {Root}, o |-> {}]
Ways(g, K) == [ n |-> UNION { Way(g, k).n : k \in K }, e |-> UNION { Way(g, k).e : k \in K }, o |-> {} ]

\* On-match rules tried at i: those that the two tokens at hand allow, in order, up
\* to the one that applies.
Tried(g, ts, i) ==
  LET m == OnMatchKey(g, ts, i)
      C == { k \in DOMAIN g.om : /\ InCls(g, ts[i], g.om[k].nc[1])
                                 /\ InCls(g, ts[i - 1], g.om[k].pc[Len(g.om[k].pc)]) }
  IN { k \in C : m = 0 \/ k <= m }
TriedAt(g, ts, i) == [n |-> {}, e |-> {}, o |-> Tried(g, ts, i)]

\* A run over ts where the rule applied at step j is Rule(j, i): what it visits at
\* least and at most, from position i on.
RECURSIVE Band(_, _, _, _, _, _)
Band(g, ts, ign, Rule(_, _), j, i) ==
  IF i >= Len(ts) THEN [lo |-> Nothing, hi |-> Nothing]
  ELSE LET k == Rule(j, i)
           here == MostAt(g, ts, i)
       IN IF k \notin DOMAIN g.rules
          THEN IF ~ign THEN [lo |-> Nothing, hi |-> here]
               ELSE LET r == Band(g, ts, ign, Rule, j, i + 1)
                    IN [lo |-> r.lo, hi |-> Join(here, r.hi)]
          ELSE LET r == Band(g, ts, ign, Rule, j + 1, i + Len(g.rules[k].t))
                   o == TriedAt(g, ts, i)
               IN [lo |-> Join(Join(Way(g, k), o), r.lo), hi |-> Join(Join(here, o), r.hi)]

\* The outcome of the checks: graph first, on-match rules second.
GraphFull(g, v) == All(g).n \subseteq v.n /\ All(g).e \subseteq v.e
OmFull(g, v) == All(g).o \subseteq v.o
Verdict(g, v) == IF ~GraphFull(g, v) THEN "graphcov" ELSE IF ~OmFull(g, v) THEN "omcov" ELSE "ok"
=============================================================================
