---------------------------- MODULE TraceTestGen ----------------------------
(* Judges generated tests of real transliterators (C23). *)
EXTENDS TestGen, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, g, errs
Ev == Data[s].ev
E == Ev[l]
If(c, n) == IF c THEN {n} ELSE {}
Found ==
  IF E.st # "ok" THEN If(E.ign = 1 \/ Safe(g), "C23.raised")
  ELSE If(E.form # "ok", "C23.form")
       \cup If(\E k \in DOMAIN g.rules : \A j \in DOMAIN E.tests : ~Spells(g, RuleSlots(g, g.rules[k]), E.tests[j].x),
               "C23.rule-missing")
       \cup If(\E k \in DOMAIN g.om : \A j \in DOMAIN E.tests : ~Spells(g, OmSlots(g, g.om[k]), E.tests[j].x),
               "C23.on-match-missing")
       \cup If(\E j \in DOMAIN E.tests : E.tests[j].st # "ok" \/ E.tests[j].real # E.tests[j].y, "C23.output")
       \cup If(E.run # "ok", "C23.tests-fail")
Init == s \in DOMAIN Data /\ l = 1 /\ errs = {} /\ g = Data[s].cfg
Step == /\ l <= Len(Ev)
        /\ errs' = errs \cup { <<n, l>> : n \in Found }
        /\ l' = l + 1 /\ UNCHANGED <<s, g>>
Report == /\ l = Len(Ev) + 1 /\ PrintT(<<"DONE", s, errs>>)
          /\ l' = l + 1 /\ UNCHANGED <<s, g, errs>>
Next == Step \/ Report
Spec == Init /\ [][Next]_<<s, l, g, errs>>
=============================================================================
