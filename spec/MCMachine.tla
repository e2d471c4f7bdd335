------------------------------ MODULE MCMachine ------------------------------
(* Exhaustive check of Machine on all inputs up to a length over small         *)
(* configurations: every rule set of up to MaxRules rules from a pool, every   *)
(* on-match list from a pool, consolidation on and off.                        *)
EXTENDS Machine, TLC
CONSTANTS MaxRules, MaxInput, OmLists

\* Code points: 97 a, 98 b, 32 space, 9 tab, 63 ?(undefined)
Toks == << <<97>>, <<98>>, <<97, 98>>, <<32>>, <<9, 32>> >>
\* classes: 1 wb, 2 v
CM == << <<0, 1>>, <<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>> >>
R(prod, pcs, pts, tt, nts, ncs) ==
  [p |-> prod, pc |-> pcs, pt |-> pts, t |-> tt, nt |-> nts, nc |-> ncs]
Pool == << R(<<65>>, <<>>, <<>>, <<1>>, <<>>, <<>>),
           R(<<66>>, <<>>, <<>>, <<2>>, <<>>, <<>>),
           R(<<67>>, <<>>, <<>>, <<1, 2>>, <<>>, <<>>),
           R(<<>>,   <<2>>, <<>>, <<1>>, <<>>, <<>>),
           R(<<69>>, <<>>, <<1>>, <<1>>, <<>>, <<2>>),
           R(<<70>>, <<1>>, <<>>, <<3>>, <<>>, <<1>>),
           R(<<32>>, <<>>, <<>>, <<4>>, <<>>, <<>>),
           R(<<71>>, <<>>, <<>>, <<2, 4>>, <<>>, <<>>),
           R(<<72>>, <<>>, <<2>>, <<1, 1>>, <<2>>, <<>>) >>
OmPool == << [pc |-> <<2>>, nc |-> <<2>>, p |-> <<43>>],
             [pc |-> <<1>>, nc |-> <<2>>, p |-> <<94>>],
             [pc |-> <<2, 2>>, nc |-> <<2>>, p |-> <<42>>],
             [pc |-> <<2>>, nc |-> <<1, 2>>, p |-> <<>>] >>
SeqsUpTo(S, n) == UNION { [1..m -> S] : m \in 0..n }
OmSets == { q \in SeqsUpTo(DOMAIN OmPool, OmLists) :
              \A x, y \in DOMAIN q : x # y => q[x] # q[y] }
RuleSets == { S \in SUBSET DOMAIN Pool : S # {} /\ Cardinality(S) <= MaxRules }
AsSeq(S) == [ k \in 1..Cardinality(S) |->
               CHOOSE x \in S : Cardinality({ y \in S : y < x }) = k - 1 ]
\* A configuration id is <<rule set, on-match list, consolidate>>.
Ids == RuleSets \X OmSets \X {0, 1}
CfgOf(id) ==
  Sorted([ tok |-> Toks, cm |-> CM,
    rules |-> [ k \in 1..Cardinality(id[1]) |-> Pool[AsSeq(id[1])[k]] ],
    om |-> [ k \in DOMAIN id[2] |-> OmPool[id[2][k]] ],
    wd |-> 4, wc |-> 1, wk |-> id[3] ])

CfgTable == TLCEval([ id \in Ids |-> CfgOf(id) ])
CfgDef(id) == CfgTable[id]
Alphabet == {97, 98, 32, 9, 63}

Init == \E id \in Ids, f \in BOOLEAN : MachineInit(id, f)
Next == \/ ctl = "idle" /\ inp = <<>> /\ res = "none"
           /\ \E x \in SeqsUpTo(Alphabet, MaxInput) : Call(x)
        \/ RunStep
        \/ ctl = "done" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* C07: every call terminates.
Terminates == <>(ctl = "done")
=============================================================================
