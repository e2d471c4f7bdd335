----------------------------- MODULE MCCoverage -----------------------------
(* Histories of a coverage-checking transliterator over small configurations:   *)
(* runs and matches visit any set within the band, clearing forgets.             *)
(* Band determines the verdict wherever it can: lo full => passes, hi not full    *)
(* => fails, with the right shortfall named first.                               *)
EXTENDS Coverage, TLC
CONSTANTS MaxRules, MaxLen, MaxOps
CM == << <<0, 1>>, <<0, 0>>, <<1, 0>> >>
R(pcs, tt, ncs) == [p |-> <<>>, pc |-> pcs, pt |-> <<>>, t |-> tt, nt |-> <<>>, nc |-> ncs]
Pool == << R(<<>>, <<1>>, <<>>), R(<<>>, <<2>>, <<>>), R(<<2>>, <<1>>, <<>>), R(<<>>, <<1, 2>>, <<>>) >>
Om == << [pc |-> <<2>>, nc |-> <<2>>, p |-> <<>>], [pc |-> <<1, 2>>, nc |-> <<2>>, p |-> <<>>] >>
Sets == { Z \in SUBSET DOMAIN Pool : Z # {} /\ Cardinality(Z) <= MaxRules }
AsSeq(Z) == [ k \in 1..Cardinality(Z) |-> CHOOSE x \in Z : Cardinality({ y \in Z : y < x }) = k - 1 ]
Cfg(Z, n) == Sorted([ tok |-> << <<97>>, <<98>>, <<32>> >>, cm |-> CM,
    rules |-> [ k \in 1..Cardinality(Z) |-> Pool[AsSeq(Z)[k]] ],
    om |-> SubSeq(Om, 1, n), wd |-> 3, wc |-> 1, wk |-> 0 ])
Inputs == { <<3>> \o q \o <<3>> : q \in UNION { [1..n -> 1..2] : n \in 0..MaxLen } }
VARIABLES g, lo, hi, v, cur, ops, last, prev, matched
vars == <<g, lo, hi, v, cur, ops, last, prev, matched>>
Init == /\ \E Z \in Sets, n \in 0..2 : g = Cfg(Z, n)
        /\ lo = Nothing /\ hi = Nothing /\ v = Nothing /\ cur = <<>> /\ ops = 0 /\ last = "new"
        /\ prev = Nothing /\ matched = {}
More(o) == ops < MaxOps /\ ops' = ops + 1 /\ last' = o /\ prev' = v
Visit(L, H) == /\ lo' = Join(lo, L) /\ hi' = Join(hi, H)
               /\ \E w \in {L, H} \cup { Join(L, [Nothing EXCEPT !.n = {x}]) : x \in H.n } : v' = Join(v, w)
Run == /\ More("run") /\ \E ts \in Inputs, ign \in BOOLEAN :
            LET F(j, i) == FirstBest(g, ts, i)
                b == Band(g, ts, ign, F, 1, 2)
            IN Visit(b.lo, b.hi) /\ cur' = ts
               /\ matched' = matched \cup { k \in DOMAIN g.rules : Within(Way(g, k), b.lo) }
       /\ UNCHANGED g
Match == /\ More("ma") /\ \E ts \in Inputs : \E i \in 2..Len(ts) - 1 :
              Visit(Ways(g, MatchSet(g, ts, i)), MostAt(g, ts, i)) /\ cur' = ts
              /\ matched' = matched \cup MatchSet(g, ts, i)
         /\ UNCHANGED g
Clear == More("clear") /\ lo' = Nothing /\ hi' = Nothing /\ v' = Nothing /\ cur' = <<>> /\ matched' = {} /\ UNCHANGED g
Quiet == More("quiet") /\ UNCHANGED <<g, lo, hi, v, cur, matched>>
Next == Run \/ Match \/ Clear \/ Quiet \/ (ops = MaxOps /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Banded == Within(lo, v) /\ Within(v, hi) /\ Within(hi, All(g))
Decided == /\ (Verdict(g, lo) = "ok" => Verdict(g, v) = "ok")
           /\ (~GraphFull(g, hi) => Verdict(g, v) = "graphcov")
           /\ (GraphFull(g, lo) /\ ~OmFull(g, hi) => Verdict(g, v) = "omcov")
Cleared == last \in {"new", "clear"} => v = Nothing
Quietly == last = "quiet" => v = prev
Grows == last \in {"run", "ma"} => Within(prev, v)
\* Matching every rule visits the whole graph.
MatchedAll == matched = DOMAIN g.rules => GraphFull(g, v)
\* Nothing is visited that no token at hand leads to.
LedTo == \A x \in v.n \ prev.n : x = Root \/ \E i \in DOMAIN cur :
           i + Len(x.q) - 1 <= Len(cur) /\ \A k \in DOMAIN x.q : cur[i + k - 1] = x.q[k]
=============================================================================
