------------------------------- MODULE TestGen -------------------------------
(***************************************************************************)
(* Tests generated for a transliterator (C23): a map from inputs to outputs that   *)
(* has, for every rule and on-match rule, an input that spells it.                 *)
(***************************************************************************)
EXTENDS GT
Members(g, c) == { t \in DOMAIN g.tok : InCls(g, t, c) }
ClassSlots(g, q) == [ k \in DOMAIN q |-> Members(g, q[k]) ]
TokenSlots(q) == [ k \in DOMAIN q |-> {q[k]} ]
\* What may stand at each place of a text that spells a rule or an on-match rule.
RuleSlots(g, r) == ClassSlots(g, r.pc) \o TokenSlots(r.pt) \o TokenSlots(r.t)
                   \o TokenSlots(r.nt) \o ClassSlots(g, r.nc)
OmSlots(g, o) == ClassSlots(g, o.pc) \o ClassSlots(g, o.nc)
RECURSIVE SpellsFrom(_, _, _, _)
SpellsFrom(g, slots, x, p) ==
  IF slots = <<>> THEN p = Len(x) + 1
  ELSE \E t \in slots[1] : StartsAt(g.tok[t], x, p)
                           /\ SpellsFrom(g, Tail(slots), x, p + Len(g.tok[t]))
Spells(g, slots, x) == SpellsFrom(g, slots, x, 1)
\* Every sample is tokenized and every token has a rule of its own.
Safe(g) == /\ \A t \in DOMAIN g.tok : Len(g.tok[t]) = 1
           /\ \A t \in DOMAIN g.tok : \E k \in DOMAIN g.rules :
                LET r == g.rules[k] IN r.t = <<t>> /\ N(r) = 1
=============================================================================
