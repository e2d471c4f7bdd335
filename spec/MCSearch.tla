------------------------------ MODULE MCSearch ------------------------------
(* Best-first search on the prefix tree, step by step, over every rule set of up *)
(* to MaxRules rules from a pool and every token sequence up to MaxLen.  Ties are *)
(* popped in any order.                                                          *)
EXTENDS Graph, TLC
CONSTANTS MaxRules, MaxLen
Toks == << <<97>>, <<98>>, <<32>> >>
CM == << <<0, 1>>, <<0, 1>>, <<1, 0>> >>
R(pcs, pts, tt, nts, ncs) ==
  [p |-> <<>>, pc |-> pcs, pt |-> pts, t |-> tt, nt |-> nts, nc |-> ncs]
Pool == << R(<<>>, <<>>, <<1>>, <<>>, <<>>), R(<<>>, <<>>, <<1, 1>>, <<>>, <<>>),
           R(<<>>, <<>>, <<1, 2>>, <<>>, <<>>), R(<<>>, <<>>, <<1, 1, 2>>, <<>>, <<>>),
           R(<<2>>, <<>>, <<1>>, <<>>, <<>>), R(<<>>, <<1>>, <<1>>, <<>>, <<2>>),
           R(<<1>>, <<2>>, <<1>>, <<>>, <<>>), R(<<>>, <<>>, <<1>>, <<1>>, <<1>>),
           R(<<>>, <<>>, <<2>>, <<1>>, <<>>), R(<<1>>, <<>>, <<1, 1>>, <<>>, <<>>),
           R(<<2>>, <<1>>, <<1>>, <<2>>, <<1>>), R(<<>>, <<>>, <<1, 3>>, <<>>, <<>>) >>
Sets == { Z \in SUBSET DOMAIN Pool : Z # {} /\ Cardinality(Z) <= MaxRules }
AsSeq(Z) == [ k \in 1..Cardinality(Z) |->
               CHOOSE x \in Z : Cardinality({ y \in Z : y < x }) = k - 1 ]
Cfg(Z) == Sorted([ tok |-> Toks, cm |-> CM,
    rules |-> [ k \in 1..Cardinality(Z) |-> Pool[AsSeq(Z)[k]] ],
    om |-> <<>>, wd |-> 3, wc |-> 1, wk |-> 0 ])
VARIABLES g, ts, i, all, frontier, found, visited, done
vars == <<g, ts, i, all, frontier, found, visited, done>>
\* A frontier entry: a prefix (rule = 0) or a rule at a prefix.
Children(q) ==
  LET at == i + Len(q)
      down == IF at <= Len(ts) /\ Append(q, ts[at]) \in Prefixes(g)
              THEN { [q |-> Append(q, ts[at]), k |-> 0] } ELSE {}
  IN  down \cup { [q |-> q, k |-> k] : k \in RulesAtNode(g, q) }
Value(n) == IF n.k = 0 THEN SpecBeneath(g, n.q) ELSE N(g.rules[n.k])
Init == /\ g \in { Cfg(Z) : Z \in Sets } /\ ts \in { <<3>> \o q \o <<3>> : q \in UNION { [1..n -> 1..3] : n \in 0..MaxLen } }
        /\ i \in 2..Len(ts) - 1 /\ all \in BOOLEAN
        /\ frontier = Children(<<>>) /\ found = <<>> /\ done = FALSE
        /\ visited = { [q |-> <<>>, k |-> 0] }
Pop(n) ==
  /\ ~done /\ n \in frontier /\ \A m \in frontier : Value(m) <= Value(n)
  /\ visited' = visited \cup {n}
  /\ IF n.k # 0 /\ RuleAt(g, g.rules[n.k], ts, i)
     THEN /\ found' = Append(found, n.k) /\ frontier' = frontier \ {n} /\ done' = ~all
     ELSE /\ frontier' = (frontier \ {n}) \cup (IF n.k = 0 THEN Children(n.q) ELSE {})
          /\ UNCHANGED <<found, done>>
  /\ UNCHANGED <<g, ts, i, all>>
Stop == ~done /\ frontier = {} /\ done' = TRUE /\ UNCHANGED <<g, ts, i, all, frontier, found, visited>>
Next == (\E n \in frontier : Pop(n)) \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>done
M == MatchSet(g, ts, i)
BestFound == (done /\ ~all) => IF found = <<>> THEN M = {} ELSE found[1] \in BestOf(g, M)
AllFound == (done /\ all) => Range(found) = M
Once == Cardinality(Range(found)) = Len(found)
Descending == \A x, y \in DOMAIN found : x < y => N(g.rules[found[x]]) >= N(g.rules[found[y]])
\* C19: visits are led to by the tokens, and include the way to what was found.
VisitBand ==
  /\ \A n \in visited : n.q \in ReachedPrefixes(g, ts, i) /\ (n.k # 0 => n.k \in ReachedRules(g, ts, i))
  /\ \A x \in DOMAIN found : [q |-> g.rules[found[x]].t, k |-> found[x]] \in visited
       /\ \A q \in PathTo(g, found[x]) : [q |-> q, k |-> 0] \in visited
=============================================================================
