------------------------------ MODULE TraceDG ------------------------------
(* Judges recorded histories of directed graphs (C20) against DG.               *)
EXTENDS DG, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, errs
vars == <<nn, ee, s, l, errs>>
Ev == Data[s].ev
E == Ev[l]
Range(q) == { q[k] : k \in DOMAIN q }
If(c, n) == IF c THEN {n} ELSE {}
Fun(q) == [ e \in { <<x[1], x[2]>> : x \in Range(q) } |->
              (CHOOSE x \in Range(q) : <<x[1], x[2]>> = e)[3] ]
\* What is seen must be what the operation leads to; then go on from what is seen.
ObsClauses ==
  IF E.ss # "ok" THEN {"C20.unreadable"} ELSE
  LET f == Fun(E.ee)  pairs == DOMAIN f IN
  If(E.nn # nn, IF E.ok = 0 THEN "C20.refusal-changed" ELSE "C20.nodes")
  \cup If(Len(E.ee) # Cardinality(pairs) \/ f # ee, IF E.ok = 0 THEN "C20.refusal-changed" ELSE "C20.edges")
  \cup If(\E p \in pairs : p[1] < 0 \/ p[1] >= Len(E.nn) \/ p[2] < 0 \/ p[2] >= Len(E.nn), "C20.dangling")
  \cup If(Len(E.el) # Cardinality(pairs) \/ { <<x[1], x[2]>> : x \in Range(E.el) } # pairs, "C20.edge-list")
VARIABLES ph
Init == s \in DOMAIN Data /\ l = 1 /\ errs = {} /\ nn = <<>> /\ ee = Fun(<<>>) /\ ph = 0
Clean(names) == errs' = errs \cup { <<n, l>> : n \in names }
Raised == E.st # "ok"
Op ==
  \/ E.op = "new" /\ New(<<>>, Fun(<<>>)) /\ Clean(If(Raised, "C20.raised"))
  \/ E.op = "construct" /\ New(E.nodes, Fun(E.edges)) /\ Clean(If(Raised, "C20.raised"))
  \/ E.op \in {"node", "edge"} /\ E.ok = 0 /\ Refuse
     /\ Clean(If(~Raised, "C20.accepted") \cup If(E.kept # 1, "C20.refusal-changed"))
  \/ E.op = "node" /\ E.ok = 1 /\ AddNode(E.d)
     /\ Clean(IF Raised THEN {"C20.refused"} ELSE
              If(E.rk # Len(nn), "C20.key") \cup If(E.rd # E.d, "C20.returned"))
  \/ E.op = "edge" /\ E.ok = 1 /\ AddEdge(E.h, E.t, E.d)
     /\ Clean(IF Raised THEN {"C20.refused"} ELSE If(E.rd # E.d, "C20.returned"))
  \/ E.op = "touch" /\ SetNode(E.h, E.d) /\ UNCHANGED errs
  \/ E.op = "touchedge" /\ SetEdge(E.h, E.t, E.d) /\ UNCHANGED errs
  \/ E.op = "noop" /\ Refuse /\ UNCHANGED errs
Do == ph = 0 /\ l <= Len(Ev) /\ Op /\ ph' = 1 /\ UNCHANGED <<s, l>>
See == ph = 1 /\ Clean(ObsClauses) /\ ph' = 0 /\ l' = l + 1 /\ UNCHANGED s
       /\ IF E.ss = "ok" THEN nn' = E.nn /\ ee' = Fun(E.ee) ELSE UNCHANGED <<nn, ee>>
Report == /\ ph = 0 /\ l = Len(Ev) + 1 /\ PrintT(<<"DONE", s, errs>>)
          /\ l' = l + 1 /\ UNCHANGED <<s, errs, nn, ee, ph>>
Next == Do \/ See \/ Report
Spec == Init /\ [][Next]_<<vars, ph>>
=============================================================================
