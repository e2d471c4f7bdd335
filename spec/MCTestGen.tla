------------------------------ MODULE MCTestGen ------------------------------
(* The generator as a machine: rules and on-match rules are taken in turn, each     *)
(* adds a test.                                                                    *)
EXTENDS TestGen
CONSTANTS MaxRules
VARIABLES g, todo, tests
vars == <<g, todo, tests>>
Toks == << <<97>>, <<98>>, <<32>> >>
CM == << <<0, 1>>, <<0, 1>>, <<1, 0>> >>
Q(S, n) == UNION { [1..m -> S] : m \in 0..n }
Rules == { [p |-> <<80>>, pc |-> pc, pt |-> pt, t |-> t, nt |-> nt, nc |-> nc] :
             pc, nc \in Q({1, 2}, 1), pt, nt \in Q({1, 3}, 1), t \in {<<1>>, <<1, 2>>} }
Single == [ t \in 1..3 |-> [p |-> <<64 + t>>, pc |-> <<>>, pt |-> <<>>, t |-> <<t>>, nt |-> <<>>, nc |-> <<>>] ]
Oms == { [pc |-> pc, nc |-> nc, p |-> <<43>>] : pc, nc \in {<<2>>, <<1, 2>>} }
Init == /\ \E R \in Q(Rules, MaxRules), o \in {<<>>} \cup { <<y>> : y \in Oms } :
             g = [tok |-> Toks, cm |-> CM, om |-> o, wd |-> 3, wc |-> 1, wk |-> 0, rules |-> Single \o R]
        /\ todo = 1 /\ tests = <<>>
Slots == IF todo <= Len(g.rules) THEN RuleSlots(g, g.rules[todo]) ELSE OmSlots(g, g.om[todo - Len(g.rules)])
Sample(q) == [ k \in DOMAIN q |-> MinOf(q[k]) ]
TextOf(q) == Concat([ k \in DOMAIN q |-> g.tok[q[k]] ])
Next == /\ todo <= Len(g.rules) + Len(g.om)
        /\ LET x == TextOf(Sample(Slots)) IN tests' = (x :> Reference(g, x, FALSE)) @@ tests
        /\ todo' = todo + 1 /\ UNCHANGED g
Spec == Init /\ [][Next]_vars
\* Running the tests passes.
Passes == \A x \in DOMAIN tests : tests[x] = Reference(g, x, FALSE) /\ tests[x][1] = "ok"
Exercised == /\ \A k \in DOMAIN g.rules : k < todo => \E x \in DOMAIN tests : Spells(g, RuleSlots(g, g.rules[k]), x)
             /\ \A k \in DOMAIN g.om : k + Len(g.rules) < todo => \E x \in DOMAIN tests : Spells(g, OmSlots(g, g.om[k]), x)
\* A text that spells a rule is one in which it matches.
Matches == \A k \in DOMAIN g.rules : k < todo =>
  LET r == g.rules[k] IN
  \E x \in DOMAIN tests : Spells(g, RuleSlots(g, r), x)
     /\ RuleAt(g, r, TokensOf(g, x), 2 + Len(r.pc) + Len(r.pt))
=============================================================================
