---------------------------- MODULE TraceEscapes ----------------------------
(* Judges transliterators read from YAML with named escapes (C16). *)
EXTENDS Escapes, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, errs
Ev == Data[s].ev
E == Ev[l]
Names == { <<Data[s].names[k].n, Data[s].names[k].c>> : k \in DOMAIN Data[s].names }
AllKnown == \A k \in DOMAIN E.texts : Known(Names, E.texts[k])
Found ==
  IF E.whole = 1  \* a document whose layout has escapes, and the same one without
  THEN IF ~AllKnown \/ Expand(Names, E.texts[1]) # E.plain THEN {"C16.bad-session"}
       ELSE IF E.st # "ok" THEN {"C16.refused"} ELSE IF E.same # 1 THEN {"C16.text"} ELSE {}
  ELSE IF E.unesc = 0
  THEN IF E.st # "ok" THEN {"C16.refused"} ELSE IF E.got # SubSeq(E.texts, 1, Len(E.got)) THEN {"C16.off"} ELSE {}
  ELSE IF ~AllKnown THEN IF E.st = "ok" THEN {"C16.unknown-accepted"} ELSE {}
  ELSE IF E.st # "ok" THEN {"C16.refused"}
  ELSE IF \E k \in DOMAIN E.got : E.got[k] # Expand(Names, E.texts[k]) THEN {"C16.text"} ELSE {}
Init == s \in DOMAIN Data /\ l = 1 /\ errs = {}
Step == /\ l <= Len(Ev)
        /\ errs' = errs \cup { <<n, l>> : n \in Found }
        /\ l' = l + 1 /\ UNCHANGED s
Report == /\ l = Len(Ev) + 1 /\ PrintT(<<"DONE", s, errs>>)
          /\ l' = l + 1 /\ UNCHANGED <<s, errs>>
Next == Step \/ Report
Spec == Init /\ [][Next]_<<s, l, errs>>
=============================================================================
