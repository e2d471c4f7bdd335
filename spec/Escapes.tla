------------------------------- MODULE Escapes -------------------------------
(***************************************************************************)
(* Named Unicode escapes in easy-reading YAML (C16): a reading head moves over    *)
(* the text; an escape  \N{NAME}  of a name of capital letters, digits, spaces    *)
(* and hyphens is replaced by the character named, anything else is copied.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
BS == 92  CapN == 78  LB == 123  RB == 125
NameChars == (65..90) \cup (48..57) \cup {32, 45}
\* Position of the brace that closes an escape beginning at i, or 0.
Close(x, i) ==
  IF ~(i + 4 <= Len(x) /\ x[i] = BS /\ x[i+1] = CapN /\ x[i+2] = LB) THEN 0
  ELSE LET E == { j \in (i + 3)..Len(x) : x[j] \notin NameChars } IN
       IF E = {} THEN 0
       ELSE LET j == CHOOSE j \in E : \A k \in E : j <= k IN
            IF x[j] = RB /\ j > i + 3 THEN j ELSE 0
NameAt(x, i) == SubSeq(x, i + 3, Close(x, i) - 1)
NamesIn(x) == { NameAt(x, i) : i \in { j \in DOMAIN x : Close(x, j) > 0 } }
\* Names maps names to code points, as a set of pairs.
Lookup(names, n) == (CHOOSE p \in names : p[1] = n)[2]
RECURSIVE ExpandFrom(_, _, _)
ExpandFrom(names, x, i) ==
  IF i > Len(x) THEN <<>>
  ELSE IF Close(x, i) > 0
       THEN <<Lookup(names, NameAt(x, i))>> \o ExpandFrom(names, x, Close(x, i) + 1)
       ELSE <<x[i]>> \o ExpandFrom(names, x, i + 1)
Expand(names, x) == ExpandFrom(names, x, 1)
Known(names, x) == NamesIn(x) \subseteq { p[1] : p \in names }
=============================================================================
