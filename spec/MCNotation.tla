---------------------------- MODULE MCNotation ----------------------------
(* Lexemes are written one after the other.  What is read back from the text is    *)
(* what was written, and only rules spelt by the notation are read at all.         *)
EXTENDS Notation
CONSTANTS MaxLex, MaxPart
VARIABLES q
A == <<97>>  B == <<98, 120>>  C == <<99>>  D == <<100, 120>>
Lexemes == { [k |-> "w", s |-> A], [k |-> "w", s |-> B], [k |-> "cls", s |-> C], [k |-> "cls", s |-> D],
             [k |-> "(", s |-> <<>>], [k |-> ")", s |-> <<>>] }
Init == q = <<>>
Next == Len(q) < MaxLex /\ \E e \in Lexemes : q' = Append(q, e)
Spec == Init /\ [][Next]_q
\* Writing loses nothing.
LexInverse == Lex(Written(q)) = q
\* What is read is a rule, and that rule is written so: no part is dropped, added or moved.
ReadExact == LET r == ReadRule(q) IN
  r.ok => /\ r.t # <<>> /\ RuleLexemes(r) = q
\* Every rule can be read back.
Parts(X) == UNION { [1..n -> X] : n \in 0..MaxPart }
EveryRule == q = <<>> =>
  \A pc, nc \in Parts({C, D}), pt, nt \in Parts({A, B}), t \in Parts({A, B}) \ {<<>>} :
     LET r == [ok |-> TRUE, pc |-> pc, pt |-> pt, t |-> t, nt |-> nt, nc |-> nc] IN
     /\ RuleOf(Written(RuleLexemes(r))) = r
     /\ Proper(Written(RuleLexemes(r)), Lex(Written(RuleLexemes(r))))
EveryOm == q = <<>> =>
  \A pc, nc \in Parts({C, D}) \ {<<>>} :
     LET o == [ok |-> TRUE, pc |-> pc, nc |-> nc] IN ReadOm(OmLex(Written(OmLexemes(o)))) = o
=============================================================================
