--------------------------------- MODULE DG ---------------------------------
(***************************************************************************)
(* Directed graphs under any updates.  nn is the data of the nodes, keys from    *)
(* zero; ee the stored edges <<head, tail>> -> data.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES nn, ee
Empty(f) == DOMAIN f = {}
Keys(q) == { k - 1 : k \in DOMAIN q }
New(nodes, edges) == nn' = nodes /\ ee' = edges
AddNode(d) == nn' = Append(nn, d) /\ UNCHANGED ee
Valid(h, t) == h \in Keys(nn) /\ t \in Keys(nn)
AddEdge(h, t, d) == /\ Valid(h, t)
                    /\ ee' = [ e \in DOMAIN ee \cup {<<h, t>>} |-> IF e = <<h, t>> THEN d ELSE ee[e] ]
                    /\ UNCHANGED nn
Refuse == UNCHANGED <<nn, ee>>
SetNode(k, d) == k \in Keys(nn) /\ nn' = [nn EXCEPT ![k + 1] = d] /\ UNCHANGED ee
SetEdge(h, t, d) == <<h, t>> \in DOMAIN ee /\ ee' = [ee EXCEPT ![<<h, t>>] = d] /\ UNCHANGED nn

Joined == \A e \in DOMAIN ee : Valid(e[1], e[2])
=============================================================================
