----------------------------- MODULE MCEscapes -----------------------------
(* The reading head as a machine over every short text. *)
EXTENDS Escapes
CONSTANTS MaxLen
VARIABLES x, i, out
Alphabet == {BS, CapN, LB, RB, 97, 50}
Names == { << <<n>>, 1000 + n >> : n \in {CapN, 50} } \cup { << <<50, 50>>, 1 >>, << <<50, CapN>>, 2 >>,
           << <<CapN, 50>>, 3 >>, << <<CapN, CapN>>, 4 >> }
Texts == UNION { [1..n -> Alphabet] : n \in 0..MaxLen }
Init == x \in { y \in Texts : Known(Names, y) } /\ i = 1 /\ out = <<>>
Replace == i <= Len(x) /\ Close(x, i) > 0
           /\ out' = Append(out, Lookup(Names, NameAt(x, i))) /\ i' = Close(x, i) + 1 /\ UNCHANGED x
Copy == i <= Len(x) /\ Close(x, i) = 0 /\ out' = Append(out, x[i]) /\ i' = i + 1 /\ UNCHANGED x
Next == Replace \/ Copy
Spec == Init /\ [][Next]_<<x, i, out>> /\ WF_<<x, i, out>>(Next)
Ends == <>(i = Len(x) + 1)
\* What is done never depends on what came before: the rest is expanded as it would be alone.
Local == out \o Expand(Names, SubSeq(x, i, Len(x))) = Expand(Names, x)
Untouched == NamesIn(x) = {} => out = SubSeq(x, 1, i - 1)
\* An escape is replaced wherever it stands.
Esc == <<BS, CapN, LB, 50, 50, RB>>
Anywhere == i = 1 => \A k \in 0..Len(x) :
  LET a == SubSeq(x, 1, k)  b == SubSeq(x, k + 1, Len(x)) IN
  NamesIn(x) = NamesIn(a) \cup NamesIn(b) =>
    Expand(Names, a \o Esc \o b) = Expand(Names, a) \o <<1>> \o Expand(Names, b)
\* None is left: an escape in the outcome was not one in the text.
Count == Cardinality({ j \in DOMAIN x : Close(x, j) > 0 })
EachOnce == i = Len(x) + 1 =>
  Cardinality({ j \in DOMAIN out : out[j] > 127 \/ out[j] < 10 }) = Count
=============================================================================
