-------------------------------- MODULE MCDG --------------------------------
(* Every history of Depth operations on a directed graph; printed as JSON for     *)
(* replay on the real code.  Operations as in harness/graphsess.py.                *)
EXTENDS DG, TLC, Json
CONSTANTS Depth, Emitting, MaxNodes
VARIABLES op, hist
vars == <<nn, ee, op, hist>>
Data == {1, 2}
Odd == {"T", "F", "N", "s", "f", "f1", "l", "t", "neg", "big", "neg2", "n"}
Ends == 0..MaxNodes
NoEdges == [ e \in {} |-> 0 ]
\* Graphs to begin with: nodes and edges given at once.
Given == { [nodes |-> q, edges |-> S] :
             q \in { <<1>>, <<1, 2>>, <<2, 1, 1>> },
             S \in SUBSET { <<0, 0>>, <<0, 1>>, <<1, 0>>, <<2, 0>> } }
Fits(c) == \A e \in c.edges : e[1] < Len(c.nodes) /\ e[2] < Len(c.nodes)
DoNew == New(<<>>, NoEdges) /\ op' = <<"new">>
DoConstruct == \E c \in Given : \E w \in BOOLEAN :
                 /\ Fits(c) /\ New(c.nodes, [ e \in c.edges |-> 1 ])
                 /\ op' = <<"construct", c.nodes, c.edges, w>>
DoNode == Len(nn) < MaxNodes /\ \E d \in {0} \cup Data :
            AddNode(d) /\ op' = <<"node", IF d = 0 THEN "none" ELSE "data", d>>
BadNode == Refuse /\ op' = <<"node", "bad", 0>>
DoEdge == \E h, t \in Ends : \E d \in {0} \cup Data :
            AddEdge(h, t, d) /\ op' = <<"edge", h, t, IF d = 0 THEN "default" ELSE "data", d>>
BadEdge == /\ Refuse
           /\ \/ \E h, t \in Ends : ~Valid(h, t) /\ op' = <<"edge", h, t, "data", 1>>
              \/ \E h \in Ends : h \in Keys(nn) /\ \E x \in Odd :
                   \/ op' = <<"odd", x, h, "data", 1>>
                   \/ op' = <<"odd", h, x, "data", 1>>
              \/ \E h, t \in Ends : Valid(h, t) /\ op' = <<"edge", h, t, "bad", 0>>
Step == DoNode \/ BadNode \/ DoEdge \/ BadEdge
Init == nn = <<>> /\ ee = NoEdges /\ op = <<"none">> /\ hist = <<>>
Next == \/ hist = <<>> /\ (DoNew \/ DoConstruct) /\ hist' = <<op'>>
        \/ hist # <<>> /\ Len(hist) < Depth /\ Step /\ hist' = Append(hist, op')
        \/ /\ Len(hist) = Depth
           /\ IF Emitting THEN PrintT("HIST " \o ToJson(hist)) ELSE TRUE
           /\ hist' = Append(hist, <<"end">>) /\ UNCHANGED <<nn, ee, op>>
Spec == Init /\ [][Next]_vars
\* Without histories, to explore every reachable graph.
Free == Init /\ [][/\ hist' = <<>>
                   /\ IF op = <<"none">> THEN DoNew \/ DoConstruct ELSE Step]_vars
FreeView == <<nn, ee, op>>
Consecutive == Keys(nn) = 0..(Len(nn) - 1)
Refused == [][(op'[1] = "odd" \/ (op'[1] = "edge" /\ (op'[4] = "bad" \/ ~(op'[2] \in Keys(nn) /\ op'[3] \in Keys(nn)))))
              => UNCHANGED <<nn, ee>>]_vars
LastGiven == [][op'[1] = "edge" /\ op'[4] = "data" /\ op'[2] \in Keys(nn) /\ op'[3] \in Keys(nn)
                => ee'[<<op'[2], op'[3]>>] = op'[5]]_vars
Kept == [][op'[1] # "new" /\ op'[1] # "construct" => DOMAIN ee \subseteq DOMAIN ee' /\ Len(nn') >= Len(nn)]_vars
=============================================================================
