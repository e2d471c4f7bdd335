---------------------------- MODULE TraceThreads ----------------------------
(***************************************************************************)
(* Judges concurrent and re-entrant calls (C09): whatever the schedule, every call *)
(* has the outcome that it has on its own.                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, errs,
          alone   \* outcome of every call on its own
Ev == Data[s].ev
E == Ev[l]
If(c, n) == IF c THEN {n} ELSE {}
Init == s \in DOMAIN Data /\ l = 1 /\ errs = {} /\ alone = <<>>
Solo == /\ l <= Len(Ev) /\ E.op = "solo" /\ E.call = Len(alone) + 1
        /\ alone' = Append(alone, E.out) /\ UNCHANGED errs
Together == /\ l <= Len(Ev) /\ E.op \in {"conc", "nested"}
            /\ errs' = errs \cup
                 { <<n, l>> : n \in If(\E k \in DOMAIN E.outs : E.outs[k] # alone[E.calls[k]], "C09." \o E.op) }
            /\ UNCHANGED alone
Step == (Solo \/ Together) /\ l' = l + 1 /\ UNCHANGED s
Report == /\ l = Len(Ev) + 1 /\ PrintT(<<"DONE", s, errs>>)
          /\ l' = l + 1 /\ UNCHANGED <<s, errs, alone>>
Next == Step \/ Report
Spec == Init /\ [][Next]_<<s, l, errs, alone>>
=============================================================================
