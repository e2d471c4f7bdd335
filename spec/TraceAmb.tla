------------------------------ MODULE TraceAmb ------------------------------
(* Judges recorded outcomes of building (and pruning) rule sets with and without  *)
(* the ambiguity check against what must and what may be rejected.                *)
EXTENDS Ambiguity, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, errs
Events == Data[s].ev
E == Events[l]
More == l <= Len(Events)
If(cond, name) == IF cond THEN {name} ELSE {}
Bad(names) == errs' = errs \cup { <<n, l>> : n \in names }

Keep(g, keep) == [g EXCEPT !.rules =
                    LET ks == SelectSeq([k \in DOMAIN g.rules |-> k], LAMBDA k : keep[k] = 1)
                    IN [ k \in DOMAIN ks |-> g.rules[ks[k]] ]]
Checked(g) ==
  IF E.st = "ok" THEN If(MustReject(g), "C10.accepted-though-ambiguous")
  ELSE IF E.st = "ambiguous" THEN If(~MayReject(g), "C11.rejected-though-resolved")
  ELSE {"C10.failed", "C11.failed"}

Init == s \in DOMAIN Data /\ l = 1 /\ errs = {}
New == /\ More
       /\ LET g == Keep(Data[s].cfg, E.keep) IN
          Bad(IF E.chk = 1 THEN Checked(g) ELSE If(E.st # "ok", "C11.rejected-unchecked"))
       /\ l' = l + 1 /\ UNCHANGED s
Report == /\ l = Len(Events) + 1 /\ PrintT(<<"DONE", s, errs>>)
          /\ l' = l + 1 /\ UNCHANGED <<s, errs>>
Next == New \/ Report
Spec == Init /\ [][Next]_<<s, l, errs>>
=============================================================================
