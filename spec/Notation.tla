------------------------------ MODULE Notation ------------------------------
(***************************************************************************)
(* The easy-reading notation of rules and on-match rules (C15).                   *)
(* Text is a sequence of code points.  Lex cuts it into lexemes                   *)
(*   "(" ")" "cls" (a name in angle brackets) "w" (a word) and "bad".              *)
(* A rule is   [ cls+ | "(" cls* w+ ")" ]  w+  [ cls+ | "(" w+ cls* ")" ]          *)
(* and an on-match rule  cls+ "+" cls+.                                           *)
(* Spacing is proper if one space stands between lexemes and none inside           *)
(* parentheses next to them.  Text that fits, properly spaced, has to be read as   *)
(* those parts; with other spacing it may be refused or read as those parts;       *)
(* text that does not fit has to be refused.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
LP == 40  RP == 41  LT == 60  GT == 62  SP == 32  PLUS == 43
Spaces == {9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160, 8232, 8233, 12288}
Marks == {LP, RP, LT, GT}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
\* First position from i of a code point in S, or the end.
From(x, i, S) == LET P == { j \in i..Len(x) : x[j] \in S } IN IF P = {} THEN Len(x) + 1 ELSE Min(P)

\* Wide spaces are part of a word that goes on after them.
Wide == {160, 12288}
Within(x, i, j) == /\ x[j] \in Wide /\ j > i /\ j < Len(x)
                   /\ x[j - 1] \notin Marks \cup Spaces /\ x[j + 1] \notin Marks \cup Spaces
WordEnd(x, i) == LET P == { j \in i..Len(x) : x[j] \in Marks \cup Spaces /\ ~Within(x, i, j) }
                 IN IF P = {} THEN Len(x) + 1 ELSE Min(P)

RECURSIVE LexFrom(_, _)
LexFrom(x, i) ==
  IF i > Len(x) THEN <<>>
  ELSE IF x[i] \in Spaces THEN LexFrom(x, i + 1)
  ELSE IF x[i] = LP THEN <<[k |-> "(", s |-> <<>>]>> \o LexFrom(x, i + 1)
  ELSE IF x[i] = RP THEN <<[k |-> ")", s |-> <<>>]>> \o LexFrom(x, i + 1)
  ELSE IF x[i] = LT THEN
    LET j == From(x, i + 1, {LT, GT}) IN
    IF j > Len(x) \/ (j <= Len(x) /\ x[j] = LT) \/ j = i + 1 THEN <<[k |-> "bad", s |-> <<>>]>>
    ELSE <<[k |-> "cls", s |-> SubSeq(x, i + 1, j - 1)]>> \o LexFrom(x, j + 1)
  ELSE IF x[i] = GT THEN <<[k |-> "bad", s |-> <<>>]>>
  ELSE LET j == WordEnd(x, i) IN
       <<[k |-> "w", s |-> SubSeq(x, i, j - 1)]>> \o LexFrom(x, j)
Lex(x) == LexFrom(x, 1)

Kinds(q) == [ j \in DOMAIN q |-> q[j].k ]
All(q, kind) == \A j \in DOMAIN q : q[j].k = kind
Texts(q) == [ j \in DOMAIN q |-> q[j].s ]
\* Length of the longest prefix of q of the kind.
Run(q, kind) == LET P == { j \in DOMAIN q : q[j].k # kind } IN IF P = {} THEN Len(q) ELSE Min(P) - 1
Rest(q, n) == SubSeq(q, n + 1, Len(q))
No == [ok |-> FALSE]

\* The lexemes q as the parts of a rule.
ReadRule(q) ==
  IF q = <<>> THEN No ELSE
  LET close == IF q[1].k # "(" THEN 0
               ELSE LET P == { j \in DOMAIN q : q[j].k = ")" } IN IF P = {} THEN 0 ELSE Min(P)
      inner == IF close = 0 THEN <<>> ELSE SubSeq(q, 2, close - 1)
      ic == Run(inner, "cls")
      pre == IF close = 0 THEN Run(q, "cls") ELSE close
      okPrev == q[1].k # "(" \/ (close > 0 /\ All(Rest(inner, ic), "w") /\ Len(inner) > ic)
      body == Rest(q, pre)
      nt == Run(body, "w")
      post == Rest(body, nt)
      paren == post # <<>> /\ post[1].k = "("
      last == IF paren /\ post[Len(post)].k = ")" THEN SubSeq(post, 2, Len(post) - 1) ELSE <<>>
      lw == Run(last, "w")
      okNext == \/ post = <<>>
                \/ ~paren /\ All(post, "cls")
                \/ paren /\ lw > 0 /\ All(Rest(last, lw), "cls")
  IN IF ~(okPrev /\ nt > 0 /\ okNext) THEN No
     ELSE [ ok |-> TRUE,
            pc |-> Texts(IF close = 0 THEN SubSeq(q, 1, pre) ELSE SubSeq(inner, 1, ic)),
            pt |-> Texts(IF close = 0 THEN <<>> ELSE Rest(inner, ic)),
            t |-> Texts(SubSeq(body, 1, nt)),
            nt |-> Texts(IF paren THEN SubSeq(last, 1, lw) ELSE <<>>),
            nc |-> Texts(IF paren THEN Rest(last, lw) ELSE post) ]
\* In on-match rules a "+" is a mark of its own wherever it stands.
RECURSIVE OmLexFrom(_, _)
OmLexFrom(x, i) ==
  LET j == From(x, i, {PLUS}) IN
  IF j > Len(x) THEN Lex(SubSeq(x, i, Len(x)))
  ELSE Lex(SubSeq(x, i, j - 1)) \o <<[k |-> "+", s |-> <<>>]>> \o OmLexFrom(x, j + 1)
OmLex(x) == OmLexFrom(x, 1)
ReadOm(q) ==
  LET a == Run(q, "cls")  b == Rest(q, a + 1) IN
  IF a > 0 /\ a < Len(q) /\ q[a + 1].k = "+" /\ b # <<>> /\ All(b, "cls")
  THEN [ok |-> TRUE, pc |-> Texts(SubSeq(q, 1, a)), nc |-> Texts(b)] ELSE No

(* ------------------------------- writing ----------------------------------- *)
Show(e) == CASE e.k = "(" -> <<LP>> [] e.k = ")" -> <<RP>> [] e.k = "+" -> <<PLUS>>
             [] e.k = "cls" -> <<LT>> \o e.s \o <<GT>> [] OTHER -> e.s
RECURSIVE ShowFrom(_, _)
ShowFrom(q, j) ==
  IF j > Len(q) THEN <<>>
  ELSE (IF j = 1 \/ q[j].k = ")" \/ q[j-1].k = "(" THEN <<>> ELSE <<SP>>) \o Show(q[j]) \o ShowFrom(q, j + 1)
Written(q) == ShowFrom(q, 1)
Proper(x, q) == Written(q) = x
Words(names) == [ j \in DOMAIN names |-> [k |-> "w", s |-> names[j]] ]
Classes(names) == [ j \in DOMAIN names |-> [k |-> "cls", s |-> names[j]] ]
Open == <<[k |-> "(", s |-> <<>>]>>
Close == <<[k |-> ")", s |-> <<>>]>>
RuleLexemes(r) ==
  (IF r.pt = <<>> THEN Classes(r.pc) ELSE Open \o Classes(r.pc) \o Words(r.pt) \o Close)
  \o Words(r.t)
  \o (IF r.nt = <<>> THEN Classes(r.nc) ELSE Open \o Words(r.nt) \o Classes(r.nc) \o Close)
OmLexemes(o) == Classes(o.pc) \o <<[k |-> "+", s |-> <<>>]>> \o Classes(o.nc)

\* A rule is a single space: the token of one space, if there is one.
Space == <<SP>>
RuleOf(x) == IF x = Space
             THEN [ok |-> TRUE, pc |-> <<>>, pt |-> <<>>, t |-> <<Space>>, nt |-> <<>>, nc |-> <<>>]
             ELSE ReadRule(Lex(x))
=============================================================================
