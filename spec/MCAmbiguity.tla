---------------------------- MODULE MCAmbiguity ----------------------------
(* Exhaustive check, over every rule set of up to MaxRules rules from a pool,   *)
(* that the window characterisation of ambiguity is the one given by all token   *)
(* sequences, that what must be rejected may be, and what the matrix algorithm    *)
(* of the implementation does about it.                                          *)
EXTENDS Ambiguity, TLC
CONSTANTS MaxRules, Full
Toks == << <<97>>, <<98>>, <<32>> >>
\* classes: 1 wb {' '}, 2 {a}, 3 {a, b}, 4 every token
CM == << <<0, 1, 1, 1>>, <<0, 0, 1, 1>>, <<1, 0, 0, 1>> >>
R(pcs, pts, tt, nts, ncs) ==
  [p |-> <<>>, pc |-> pcs, pt |-> pts, t |-> tt, nt |-> nts, nc |-> ncs]
Pool == << R(<<>>, <<>>, <<1>>, <<>>, <<2>>), R(<<>>, <<>>, <<1>>, <<>>, <<3>>),
           R(<<2>>, <<>>, <<1>>, <<>>, <<>>), R(<<>>, <<1>>, <<1>>, <<>>, <<>>),
           R(<<3>>, <<>>, <<1>>, <<>>, <<>>), R(<<>>, <<>>, <<1>>, <<1>>, <<>>),
           R(<<>>, <<>>, <<1, 1>>, <<>>, <<>>), R(<<>>, <<>>, <<1>>, <<>>, <<>>),
           R(<<1>>, <<>>, <<1>>, <<>>, <<>>), R(<<2>>, <<>>, <<1>>, <<>>, <<3>>),
           R(<<3>>, <<>>, <<1>>, <<1>>, <<>>), R(<<2>>, <<>>, <<1>>, <<1>>, <<>>),
           R(<<>>, <<>>, <<1, 2>>, <<>>, <<1>>), R(<<>>, <<>>, <<2>>, <<>>, <<1>>),
           R(<<4>>, <<>>, <<1>>, <<>>, <<>>), R(<<>>, <<>>, <<1>>, <<>>, <<4, 4>>) >>
Ids == { S \in SUBSET (1..IF Full THEN 16 ELSE 14) : Cardinality(S) <= MaxRules /\ S # {} }
AsSeq(S) == [ k \in 1..Cardinality(S) |->
               CHOOSE x \in S : Cardinality({ y \in S : y < x }) = k - 1 ]
CfgOf(S) == Sorted([ tok |-> Toks, cm |-> CM,
    rules |-> [ k \in 1..Cardinality(S) |-> Pool[AsSeq(S)[k]] ],
    om |-> <<>>, wd |-> 3, wc |-> 1, wk |-> 0 ])
VARIABLE S
Init == S \in Ids
Next == UNCHANGED S
Spec == Init /\ [][Next]_S
\* Every token sequence with boundaries that is long enough.
Seqs == UNION { [1..n -> 1..3] : n \in 1..4 }
Brute(g) == \E q \in Seqs : LET ts == <<3>> \o q \o <<3>> IN
              \E i \in 2..Len(ts) - 1 : AmbiguousAt(g, ts, i)
WindowsExact == LET g == CfgOf(S) IN Brute(g) = MustReject(g)
MustImpliesMay == LET g == CfgOf(S) IN MustReject(g) => MayReject(g)
\* The implementation: a cheaper rule whose row covers the joint row.
MatrixReject(g) ==
  LET W == Offsets(P(g), Q(g)) IN
  \E q \in Pairs(g) : ~\E m \in DOMAIN g.rules :
     /\ N(g.rules[m]) > N(g.rules[q[1]])
     /\ \A d \in W : Joint(g, q[1], q[2], d) \subseteq Needs(g, g.rules[m], d)
\* Without a class of every token the algorithm is within the band.
NoTotalClass(g) == \A k \in DOMAIN g.rules : \A x \in DOMAIN g.rules[k].pc : g.rules[k].pc[x] # 4
NoTotal2(g) == \A k \in DOMAIN g.rules : \A x \in DOMAIN g.rules[k].nc : g.rules[k].nc[x] # 4
AlgorithmSound == LET g == CfgOf(S) IN
  NoTotalClass(g) /\ NoTotal2(g) =>
     (MustReject(g) => MatrixReject(g)) /\ (MatrixReject(g) => MayReject(g))
\* A rejection is never unjustified, even with such a class.
NeverUnjustified == LET g == CfgOf(S) IN MatrixReject(g) => MayReject(g)
=============================================================================
