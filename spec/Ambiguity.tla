------------------------------ MODULE Ambiguity ------------------------------
(***************************************************************************)
(* When a rule set must be, and when it may be, rejected as ambiguous.        *)
(*                                                                           *)
(* Around a position 0 lie at most P tokens that some rule looks back at and   *)
(* Q tokens (from the position on) that some rule matches or looks ahead at.    *)
(* A place is a window of l tokens before and r tokens from the position on;   *)
(* if l < P the window begins, and if r < Q ends, with the boundary token.     *)
(***************************************************************************)
EXTENDS GT

Back(r)  == Len(r.pc) + Len(r.pt)
Ahead(r) == Len(r.t) + Len(r.nt) + Len(r.nc)
P(g) == IF g.rules = <<>> THEN 0 ELSE MaxOf({ Back(g.rules[k]) : k \in DOMAIN g.rules })
Q(g) == IF g.rules = <<>> THEN 1 ELSE MaxOf({ Ahead(g.rules[k]) : k \in DOMAIN g.rules })

All(g) == DOMAIN g.tok
OfClass(g, c) == { t \in All(g) : InCls(g, t, c) }

\* Tokens allowed by rule r at offset d (d = 0 is the position itself).
Needs(g, r, d) ==
  IF d < 0
  THEN LET b == -d IN                        \* b-th token before the position
       IF b <= Len(r.pt) THEN { r.pt[Len(r.pt) + 1 - b] }
       ELSE IF b <= Back(r) THEN OfClass(g, r.pc[Back(r) + 1 - b])
       ELSE All(g)
  ELSE LET a == d + 1 IN
       IF a <= Len(r.t) THEN { r.t[a] }
       ELSE IF a <= Len(r.t) + Len(r.nt) THEN { r.nt[a - Len(r.t)] }
       ELSE IF a <= Ahead(r) THEN OfClass(g, r.nc[a - Len(r.t) - Len(r.nt)])
       ELSE All(g)

Offsets(l, r) == (-l) .. (r - 1)
Joint(g, j, k, d) == Needs(g, g.rules[j], d) \cap Needs(g, g.rules[k], d)

Lo(g, j, k) == MaxOf({Back(g.rules[j]), Back(g.rules[k])})
Hi(g, j, k) == MaxOf({Ahead(g.rules[j]), Ahead(g.rules[k])})

\* Both rules can match at one position of some token sequence.
CanMeet(g, j, k) ==
  \A d \in Offsets(Lo(g, j, k), Hi(g, j, k)) : Joint(g, j, k, d) # {}

\* The more specific rule m matches wherever both j and k do: wherever it looks
\* it is satisfied by what they require, and it looks no further than they do
\* (further on the sequence may have ended).
Covers(g, m, j, k) ==
  /\ N(g.rules[m]) > N(g.rules[j])
  /\ Back(g.rules[m]) <= Lo(g, j, k) /\ Ahead(g.rules[m]) <= Hi(g, j, k)
  /\ \A d \in Offsets(Lo(g, j, k), Hi(g, j, k)) :
       Joint(g, j, k, d) \subseteq Needs(g, g.rules[m], d)

Pairs(g) == { q \in (DOMAIN g.rules) \X (DOMAIN g.rules) :
                q[1] < q[2] /\ N(g.rules[q[1]]) = N(g.rules[q[2]])
                /\ CanMeet(g, q[1], q[2]) }

\* C11: a rule set may be rejected only if this holds.
MayReject(g) == \E q \in Pairs(g) : ~\E m \in DOMAIN g.rules : Covers(g, m, q[1], q[2])

\* The windows in which both rules match: <<l, r>> and the tokens allowed there.
Sizes(g, j, k) ==
  LET p == P(g)  q == Q(g)
      ls == { l \in Lo(g, j, k)..p : l = p \/ l >= 1 }
      rs == { r \in Hi(g, j, k)..q : r = q \/ r >= 2 }
  IN  ls \X rs
Allowed(g, j, k, l, r, d) ==
  LET A == Joint(g, j, k, d)
      B == IF d = -l /\ l < P(g) THEN A \cap {g.wd} ELSE A
  IN  IF d = r - 1 /\ r < Q(g) THEN B \cap {g.wd} ELSE B

RECURSIVE Windows(_, _, _, _, _, _)
\* Token sequences of the window from offset d on.
Windows(g, j, k, l, r, d) ==
  IF d > r - 1 THEN {<<>>}
  ELSE { <<t>> \o w : t \in Allowed(g, j, k, l, r, d), w \in Windows(g, j, k, l, r, d + 1) }

\* C10: a rule set must be rejected if two rules of the same specificity are best
\* at some place.
MustReject(g) ==
  \E q \in Pairs(g) : \E z \in Sizes(g, q[1], q[2]) :
    \E w \in Windows(g, q[1], q[2], z[1], z[2], -z[1]) :
      ~\E m \in DOMAIN g.rules :
         N(g.rules[m]) > N(g.rules[q[1]]) /\ RuleAt(g, g.rules[m], w, z[1] + 1)
=============================================================================
