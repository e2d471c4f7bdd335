--------------------------- MODULE TraceSettings ---------------------------
(* Judges whether settings documents were accepted (C14). *)
EXTENDS Settings, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, errs
Ev == Data[s].ev
E == Ev[l]
Want == IF E.how = "direct" THEN DirectVerdict(E.doc, E.chk = 1) ELSE EasyVerdict(E.doc, E.chk = 1)
Found == LET w == Want IN
  IF w = "accept" /\ E.st # "ok" THEN {"C14.refused-valid"}
  ELSE IF w = "refuse" /\ E.st = "ok" THEN {"C14.accepted-invalid"} ELSE {}
Init == s \in DOMAIN Data /\ l = 1 /\ errs = {}
Step == /\ l <= Len(Ev)
        /\ errs' = errs \cup { <<n, l>> : n \in Found }
        /\ l' = l + 1 /\ UNCHANGED s
Report == /\ l = Len(Ev) + 1 /\ PrintT(<<"DONE", s, errs>>)
          /\ l' = l + 1 /\ UNCHANGED <<s, errs>>
Next == Step \/ Report
Spec == Init /\ [][Next]_<<s, l, errs>>
=============================================================================
