--------------------------------- MODULE GT ---------------------------------
(***************************************************************************)
(* Denotational semantics of Graph Transliterator.                          *)
(*                                                                          *)
(* A configuration g is a record                                            *)
(*   tok   sequence of token types, each a sequence of code points          *)
(*   cm    token/class matrix: cm[t][c] = 1 iff token t has class c          *)
(*   rules sequence of rules as given by the user; a rule is a record        *)
(*           p  production (sequence of code points)                         *)
(*           pc previous classes, pt previous tokens, t tokens,               *)
(*           nt next tokens, nc next classes  (sequences of indices)          *)
(*   om    sequence of on-match rules [pc, nc, p]                             *)
(*   wd    default whitespace token, wc whitespace class (indices)            *)
(*   wk    1 iff whitespace is consolidated                                   *)
(* Token sequences are sequences of indices into g.tok; positions are         *)
(* 1-based (position i here is token_i = i - 1 in the implementation).        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

InCls(g, t, c) == g.cm[t][c] = 1
IsWs(g, t)     == InCls(g, t, g.wc)
Consol(g)      == g.wk = 1

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Range(q) == { q[k] : k \in DOMAIN q }

RECURSIVE Concat(_)
Concat(qq) == IF qq = <<>> THEN <<>> ELSE Head(qq) \o Concat(Tail(qq))

(* -------------------------- specificity -------------------------------- *)

\* The number of tokens that a rule requires.
N(r) == Len(r.pc) + Len(r.pt) + Len(r.t) + Len(r.nt) + Len(r.nc)

\* Rules in the order of the transliterator: most specific first, ties in the
\* order given.
\* (A permutation rather than a recursive definition, so that TLC evaluates constants
\* that use it only once.)
RankIn(rs, k) == Cardinality({ j \in DOMAIN rs : N(rs[j]) > N(rs[k]) \/ (N(rs[j]) = N(rs[k]) /\ j <= k) })
Ordered(rs) ==
  LET q == TLCEval(rs)
      rank == TLCEval([ k \in DOMAIN q |-> RankIn(q, k) ])
  IN  TLCEval([ n \in DOMAIN q |-> q[CHOOSE k \in DOMAIN q : rank[k] = n] ])
Sorted(g) == TLCEval([ g EXCEPT !.rules = Ordered(g.rules) ])

(* -------------------------- tokenization ------------------------------- *)

StartsAt(w, x, p) == /\ Len(w) > 0
                     /\ p + Len(w) - 1 <= Len(x)
                     /\ \A k \in 1..Len(w) : x[p + k - 1] = w[k]

\* The longest token that starts at character p of input x, or 0.
Longest(g, x, p) ==
  LET C == { t \in DOMAIN g.tok : StartsAt(g.tok[t], x, p) }
  IN  IF C = {} THEN 0
      ELSE CHOOSE t \in C : \A u \in C : Len(g.tok[u]) <= Len(g.tok[t])

\* The tokens of x from character p, places without a token passed over.
RECURSIVE RawTokens(_, _, _)
RawTokens(g, x, p) ==
  IF p > Len(x) THEN <<>>
  ELSE LET t == Longest(g, x, p)
       IN  IF t = 0 THEN RawTokens(g, x, p + 1)
           ELSE <<t>> \o RawTokens(g, x, p + Len(g.tok[t]))

RECURSIVE BadPlaces(_, _, _)
BadPlaces(g, x, p) ==
  IF p > Len(x) THEN {}
  ELSE LET t == Longest(g, x, p)
       IN  IF t = 0 THEN {p} \cup BadPlaces(g, x, p + 1)
           ELSE BadPlaces(g, x, p + Len(g.tok[t]))

\* Consolidation of a raw token sequence: positions that survive.
Survives(g, q, k) ==
  \/ ~IsWs(g, q[k])
  \/ /\ k > 1 /\ ~IsWs(g, q[k - 1])
     /\ \E m \in k + 1 .. Len(q) : ~IsWs(g, q[m])
RECURSIVE ConsolFrom(_, _, _)
ConsolFrom(g, q, k) ==
  IF k > Len(q) THEN <<>>
  ELSE (IF Survives(g, q, k) THEN <<q[k]>> ELSE <<>>) \o ConsolFrom(g, q, k + 1)

\* Whitespace-normal form: a whitespace run may be rendered by the first of its
\* tokens or by the default one; both are read as the default one.
WsNorm(g, q) == [ k \in DOMAIN q |-> IF IsWs(g, q[k]) THEN g.wd ELSE q[k] ]

TokensOf(g, x) ==
  LET raw == RawTokens(g, x, 1)
      mid == IF Consol(g) THEN ConsolFrom(g, raw, 1) ELSE raw
  IN  <<g.wd>> \o mid \o <<g.wd>>

(* -------------------------- matching ----------------------------------- *)

\* Rule r matches at position i of the token sequence ts.
RuleAt(g, r, ts, i) ==
  LET b == i - Len(r.pt)              \* first previous token
      a == b - Len(r.pc)              \* first previous class
      e == i + Len(r.t)               \* first next token
      f == e + Len(r.nt)              \* first next class
  IN  /\ a >= 1
      /\ f + Len(r.nc) - 1 <= Len(ts)
      /\ \A k \in DOMAIN r.t  : ts[i + k - 1] = r.t[k]
      /\ \A k \in DOMAIN r.pt : ts[b + k - 1] = r.pt[k]
      /\ \A k \in DOMAIN r.nt : ts[e + k - 1] = r.nt[k]
      /\ \A k \in DOMAIN r.pc : InCls(g, ts[a + k - 1], r.pc[k])
      /\ \A k \in DOMAIN r.nc : InCls(g, ts[f + k - 1], r.nc[k])

MatchSet(g, ts, i) == { k \in DOMAIN g.rules : RuleAt(g, g.rules[k], ts, i) }
BestOf(g, M) == { k \in M : \A j \in M : N(g.rules[j]) <= N(g.rules[k]) }
BestSet(g, ts, i)  == BestOf(g, MatchSet(g, ts, i))

(* -------------------------- on-match rules ------------------------------ *)

OnMatchAt(g, o, ts, i) ==
  LET a == i - Len(o.pc)
  IN  /\ a >= 1
      /\ i + Len(o.nc) - 1 <= Len(ts)
      /\ \A k \in DOMAIN o.pc : InCls(g, ts[a + k - 1], o.pc[k])
      /\ \A k \in DOMAIN o.nc : InCls(g, ts[i + k - 1], o.nc[k])

OnMatchSet(g, ts, i) == { k \in DOMAIN g.om : OnMatchAt(g, g.om[k], ts, i) }
\* Index of the on-match rule inserted at i, or 0.
OnMatchKey(g, ts, i) == LET M == OnMatchSet(g, ts, i)
                        IN  IF M = {} THEN 0 ELSE MinOf(M)
Insertion(g, ts, i) == LET k == OnMatchKey(g, ts, i)
                       IN  IF k = 0 THEN <<>> ELSE g.om[k].p

(* -------------------------- transliteration ----------------------------- *)

\* Of equally specific rules that match (only possible if ambiguity is not
\* checked) the reference takes the first.
FirstBest(g, ts, i) == LET B == BestSet(g, ts, i)
                       IN  IF B = {} THEN 0 ELSE MinOf(B)

RECURSIVE CoverFrom(_, _, _)
\* Sequence of <<position, rule or 0 (skipped)>> from position i on.
CoverFrom(g, ts, i) ==
  IF i >= Len(ts) THEN <<>>
  ELSE LET k == FirstBest(g, ts, i)
       IN  IF k = 0 THEN << <<i, 0>> >> \o CoverFrom(g, ts, i + 1)
           ELSE << <<i, k>> >> \o CoverFrom(g, ts, i + Len(g.rules[k].t))

OutputOf(g, ts, cover) ==
  Concat([ k \in DOMAIN cover |->
             IF cover[k][2] = 0 THEN <<>>
             ELSE Insertion(g, ts, cover[k][1]) \o g.rules[cover[k][2]].p ])

\* Reference result of transliterating x: <<status, output>>.
Reference(g, x, ign) ==
  LET bad == BadPlaces(g, x, 1)
      ts  == TokensOf(g, x)
      cov == CoverFrom(g, ts, 2)
      gap == \E k \in DOMAIN cov : cov[k][2] = 0
  IN  IF ~ign /\ bad # {} THEN <<"unrec", <<>>>>
      ELSE IF ~ign /\ gap THEN <<"nomatch", <<>>>>
      ELSE <<"ok", OutputOf(g, ts, cov)>>

\* Two different rules of the same specificity are best at a position.
AmbiguousAt(g, ts, i) == Cardinality(BestSet(g, ts, i)) > 1
=============================================================================
