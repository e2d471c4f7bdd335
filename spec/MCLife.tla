------------------------------- MODULE MCLife -------------------------------
(* Life, exhaustively up to Depth operations, or simulated; histories of length Depth *)
(* are printed as JSON and replayed on the real code.                                 *)
EXTENDS Life, TLC, Json
CONSTANTS Depth, Emitting, MaxBuilds,
          Ops   \* operations to explore
VARIABLE hist
Init == LifeInit /\ hist = <<>>
Emit == /\ Len(hist) = Depth
        /\ IF Emitting THEN PrintT("HIST " \o ToJson(hist)) ELSE TRUE
        /\ hist' = Append(hist, <<"end">>) /\ UNCHANGED lvars
Builds(h) == Cardinality({ k \in DOMAIN h : h[k][1] = "build" })
Next == \/ /\ Len(hist) < Depth /\ LifeNext /\ op'[1] \in Ops
           /\ hist' = Append(hist, op') /\ Builds(hist') <= MaxBuilds
        \/ Emit
Spec == Init /\ [][Next]_<<lvars, hist>>
=============================================================================
