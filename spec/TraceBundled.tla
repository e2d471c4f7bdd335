---------------------------- MODULE TraceBundled ----------------------------
(***************************************************************************)
(* Judges histories of registering, loading and testing real bundled               *)
(* transliterators.  What a class is (its view) and what it does with an input are *)
(* learnt from its first load; every later load must agree.                        *)
(***************************************************************************)
EXTENDS Bundled, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, errs,
          bound,  \* the register
          views,  \* set of <<class, view>>
          does,   \* set of <<class, ignoring errors, input, outcome>>
          ambig   \* set of <<class, whether it is refused as ambiguous>>
vars == <<s, l, errs, bound, views, does, ambig>>
Ev == Data[s].ev
E == Ev[l]
If(c, n) == IF c THEN {n} ELSE {}
Bad(names) == errs' = errs \cup { <<n, l>> : n \in names }
More == l <= Len(Ev)
ToSet(q) == { q[k] : k \in DOMAIN q }
Init == /\ s \in DOMAIN Data /\ l = 1 /\ errs = {}
        /\ bound = ToSet(Data[s].bound) /\ views = {} /\ does = {} /\ ambig = {}
Dir(q) == [ k \in DOMAIN q |-> [n |-> q[k][1], c |-> q[k][2], m |-> q[k][3] = 1] ]
Add ==
  /\ More /\ E.op = "add"
  /\ LET q == Dir(E.q)  new == ToSet(E.bound) IN
     /\ Bad( If((E.st = "ok") = Clash(bound, q), "C21.register-outcome")
             \cup If(~(bound \subseteq new), "C21.replaced")
             \cup If(E.dups # 0, "C21.unique")
             \cup If(~May(bound, q, new), "C21.registered") )
     /\ bound' = new
  /\ UNCHANGED <<views, does, ambig>>
Load ==
  /\ More /\ E.op = "load"
  /\ LET refused == E.st = "ambiguous"
         vs == { v \in views : v[1] = E.c }
         as == { a \in ambig : a[1] = E.c }
         runs == IF E.st = "ok" THEN { <<E.c, E.ign, E.runs[k].x, [st |-> E.runs[k].st, y |-> E.runs[k].y]>> : k \in DOMAIN E.runs }
                 ELSE {}
     IN /\ Bad( If(E.st \notin {"ok", "ambiguous"}, "C21.not-loaded")
                \cup If(refused /\ E.chk = 0, "C21.checked")
                \cup If(E.chk = 1 /\ \E a \in as : a[2] # refused, "C21.check-option")
                \cup If(E.st = "ok" /\ vs # {} /\ <<E.c, E.view>> \notin vs, "C21.view")
                \cup If(E.st = "ok" /\ E.wign # 2 /\ E.ign # E.wign, "C21.ignore-option")
                \cup If(E.st = "ok" /\ E.wign = 2 /\ E.ign # 0, "C21.default-option")
                \cup If(\E r \in runs : r[2] = 1 /\ r[4].st \in {"unrec", "nomatch"}, "C21.ignore-option")
                \cup If(\E r \in runs, q \in does \cup runs :
                          r[1] = q[1] /\ r[2] = q[2] /\ r[3] = q[3] /\ r[4] # q[4], "C21.result") )
        /\ views' = (IF E.st = "ok" /\ vs = {} THEN views \cup {<<E.c, E.view>>} ELSE views)
        /\ ambig' = (IF E.chk = 1 /\ as = {} THEN ambig \cup {<<E.c, refused>>} ELSE ambig)
        /\ does' = does \cup { r \in runs : \A q \in does : <<q[1], q[2], q[3]>> # <<r[1], r[2], r[3]>> }
  /\ UNCHANGED bound
Tests ==
  /\ More /\ E.op = "tests"
  /\ Bad( If((E.run = "ok") # Passes(E.tests), "C21.tests")
          \cup If(E.same = 0, "C21.tests-read")
          \cup If(E.own = 1 /\ E.run # "ok", "C21.own-tests")
          \cup If(E.own = 1 /\ E.cov # "ok", "C21.own-coverage") )
  /\ UNCHANGED <<bound, views, does, ambig>>
Step == (Add \/ Load \/ Tests) /\ l' = l + 1 /\ UNCHANGED s
Report == /\ l = Len(Ev) + 1 /\ PrintT(<<"DONE", s, errs>>)
          /\ l' = l + 1 /\ UNCHANGED <<s, errs, bound, views, does, ambig>>
Next == Step \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
