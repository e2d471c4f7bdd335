----------------------------- MODULE TraceGate -----------------------------
(* Judges loads of settings with versions, options and parts left out (C13). *)
EXTENDS Version, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, errs
Ev == Data[s].ev
E == Ev[l]
If(c, n) == IF c THEN {n} ELSE {}
Put(names) == errs' = errs \cup { <<n, l>> : n \in names }
Common == If(E.intact = 0, "C13.settings-modified")
          \cup If(E.st = "ok" /\ E.want # E.rid, "C13.behaviour")
Ver == LET later == Later(E.v, Data[s].lib) IN
       If(later /\ E.st # "version", IF E.st = "ok" THEN "C13.later-version-accepted" ELSE "C13.later-version")
       \cup If(~later /\ E.st # "ok", "C13.version-refused") \cup Common
Drop == If(E.st # "ok", "C13.part-required") \cup Common
Lookup == If(E.st = "ok", "C13.lookup-accepted") \cup If(E.intact = 0, "C13.settings-modified")
Opt == If(E.chk = 1 /\ E.amb = 1 /\ E.st = "ok", "C13.check-ambiguity-ignored")
       \cup If(E.st # "ok" /\ ~(E.chk = 1 /\ E.amb = 1 /\ E.st = "ambiguous"), "C13.option-refused")
       \cup If(E.st = "ok" /\ E.got # E.ign, "C13.ignore-errors") \cup Common
Init == s \in DOMAIN Data /\ l = 1 /\ errs = {}
Step == /\ l <= Len(Ev)
        /\ Put(CASE E.op = "ver" -> Ver [] E.op = "drop" -> Drop
                 [] E.op = "lookup" -> Lookup [] OTHER -> Opt)
        /\ l' = l + 1 /\ UNCHANGED s
Report == /\ l = Len(Ev) + 1 /\ PrintT(<<"DONE", s, errs>>)
          /\ l' = l + 1 /\ UNCHANGED <<s, errs>>
Next == Step \/ Report
Spec == Init /\ [][Next]_<<s, l, errs>>
=============================================================================
