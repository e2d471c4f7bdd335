------------------------------- MODULE TraceRun -------------------------------
(***************************************************************************)
(* Judges recorded sessions of real transliterators against Machine.         *)
(* A session is a configuration and a list of events (calls with arguments    *)
(* and results).  The machine is stepped with the recorded arguments; where    *)
(* the specification leaves a choice the recorded one is taken if permitted.   *)
(* Every disagreement adds a clause <<name, event>> to errs; the run never     *)
(* gets stuck, so the verdict is total.                                        *)
(***************************************************************************)
EXTENDS Machine, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Cfgs == TLCEval([ k \in DOMAIN Data |-> Sorted(Data[k].cfg) ])
CfgDef(k) == Cfgs[k]

VARIABLES s,     \* session
          l,     \* next event
          sync,  \* tokens of the current run were compared
          errs

tvars == <<s, l, sync, errs>>
Events == Data[s].ev
E == Events[l]
More == l <= Len(Events)
Bad(names) == errs' = errs \cup { <<n, l>> : n \in names }
If(cond, name) == IF cond THEN {name} ELSE {}

ValidTs(q) == q # <<>> /\ \A k \in DOMAIN q : q[k] \in DOMAIN g.tok
NonWs(q) == SelectSeq(q, LAMBDA t : ~IsWs(g, t))

\* Clauses for a recorded token sequence q where exact is what is expected.
TokenClauses(q, exact) ==
  IF q = exact THEN {}
  ELSE IF ~ValidTs(q) THEN {"C01.undefined-token", "C02.tokens"}
  ELSE LET eq == WsNorm(g, q) = WsNorm(g, exact)
       IN  IF Consol(g) /\ eq /\ q[1] = g.wd /\ q[Len(q)] = g.wd
              /\ Len(q) = Len(exact) /\ \A k \in DOMAIN q : q[k] \in {exact[k], g.wd}
           THEN {}
           ELSE {"C02.tokens"}
              \cup If(q[1] # g.wd \/ q[Len(q)] # g.wd \/ Len(q) < 2, "C01.ends")
              \cup If(~Consol(g) \/ NonWs(q) # NonWs(exact), "C01.partition")

(* ------------------------------- events --------------------------------- *)

Init == /\ s \in DOMAIN Data /\ l = 1 /\ sync = FALSE /\ errs = {}
        /\ MachineInit(s, Data[s].ign = 1)

\* Result of building: rules, costs and productions (C25), components (C15).
SameRule(a, b) == /\ a.p = b.p /\ a.pc = b.pc /\ a.pt = b.pt /\ a.t = b.t
                  /\ a.nt = b.nt /\ a.nc = b.nc
Build ==
  /\ More /\ E.op = "build" /\ ctl = "idle"
  /\ LET rs == g.rules  or == E.rules  IN
     Bad( If(Len(or) # Len(rs) \/ \E k \in DOMAIN rs : k <= Len(or) /\ ~SameRule(or[k], rs[k]), "C25.order")
       \cup If(E.prods # [ k \in DOMAIN or |-> or[k].p ], "C25.productions")
       \cup If(E.cpos # 1, "C25.cost-range")
       \cup If(\E j, k \in DOMAIN or : (E.crank[j] < E.crank[k]) # (N(or[j]) > N(or[k])), "C25.cost-order")
       \cup If(E.ign # (IF ign THEN 1 ELSE 0), "C07.initial-setting") )
  /\ l' = l + 1 /\ UNCHANGED <<s, sync, vars>>

Ignore == /\ More /\ E.op = "ign" /\ SetIgnore(E.v = 1)
          /\ l' = l + 1 /\ UNCHANGED <<s, sync, errs>>

\* All matches at every position of a token sequence.
AllClauses(q, alls, bests) ==
  UNION { LET M == MatchSet(g, q, k)  a == alls[k]  B == BestOf(g, M)  IN
          If(bests[k] = 0 /\ M # {}, "C03.missed")
          \cup If(bests[k] # 0 /\ M = {}, "C03.spurious")
          \cup If(bests[k] # 0 /\ M # {} /\ bests[k] \notin B, "C03.not-best")
          \cup If(Range(a) # M, "C04.set")
          \cup If(Cardinality(Range(a)) # Len(a), "C04.duplicate")
          \cup If(\E m \in 1..Len(a) - 1 :
                    /\ a[m] \in DOMAIN g.rules /\ a[m + 1] \in DOMAIN g.rules
                    /\ N(g.rules[a[m]]) < N(g.rules[a[m + 1]]), "C04.order")
          \cup If((a = <<>>) # (bests[k] = 0), "C04.empty")
          \cup If(a # <<>> /\ bests[k] \in DOMAIN g.rules /\ a[1] \in DOMAIN g.rules
                  /\ N(g.rules[a[1]]) # N(g.rules[bests[k]]), "C04.first")
          : k \in DOMAIN q }

MatchAt ==
  /\ More /\ E.op = "ma" /\ ctl = "idle"
  /\ Bad( IF E.st # "ok" THEN {"C03.raised", "C04.raised"}
          ELSE AllClauses(E.ts, E.all, E.best) )
  /\ l' = l + 1 /\ UNCHANGED <<s, sync, vars>>

Begin == /\ More /\ E.op \in {"tk", "tr"} /\ Call(E.x)
         /\ sync' = FALSE /\ UNCHANGED <<s, l, errs>>

\* During a run the setting may cease to be in force as warning E.tg is logged: later
\* places raise, and whether that place itself does is left open (it was logged first).
MustFlip == /\ More /\ E.op = "tr" /\ E.tg > 0 /\ ign /\ ctl \in {"tok", "match"}
            /\ \/ Len(warn) >= E.tg
               \/ Len(warn) = E.tg - 1 /\ E.st # "ok" /\ E.nw = E.tg
Flip == MustFlip /\ ign' = FALSE /\ UNCHANGED <<tvars, cid, ctl, runvars>>

Internal == ~MustFlip /\ (KeepToken(TokenHere) \/ DropSpace \/ SkipChar \/ RaiseChar \/ EndTokens)
            /\ UNCHANGED tvars

\* Compare the tokens, and continue from the recorded ones.
Resync ==
  /\ ctl = "match" /\ ~sync
  /\ LET q == IF E.op = "tr" /\ E.st = "ok" THEN E.lt ELSE E.tk
         rec == E.tks = "ok" \/ E.st = "ok"
     IN /\ Bad( (IF rec THEN TokenClauses(q, ts) ELSE {"C01.refused"})
                \cup (IF E.op = "tr" /\ E.st = "ok" /\ E.tks = "ok" /\ E.lt # E.tk
                      THEN {"C05.last-input-tokens", "C08.tokens-differ"} ELSE {})
                \cup (IF E.op = "tr" /\ rec /\ E.tks = "ok" /\ ValidTs(E.tk)
                         /\ Len(E.best) = Len(E.tk)
                      THEN AllClauses(E.tk, E.all, E.best) ELSE {}) )
        /\ IF rec /\ ValidTs(q) /\ (E.op = "tk" \/ E.tks # "ok" \/ E.tk = q)
           THEN ts' = q /\ UNCHANGED <<ctl, res>>
           ELSE ctl' = "done" /\ res' = (IF rec THEN "broken" ELSE "ok") /\ UNCHANGED ts
  /\ sync' = TRUE /\ UNCHANGED <<s, l, cid, ign, inp, cp, pw, ti, steps, out, warn>>

EndTk == /\ ctl = "match" /\ sync /\ E.op = "tk"
         /\ ctl' = "done" /\ res' = "ok"
         /\ UNCHANGED <<tvars, cid, ign, inp, cp, pw, ts, ti, steps, out, warn>>

\* The rule recorded for the current step (in a failed run, that of match_at).
k0 == Len(steps) + 1
Best0 == IF E.tks = "ok" /\ ti \in DOMAIN E.best THEN E.best[ti] ELSE 0
Rec == IF E.st = "ok" THEN (IF k0 <= Len(E.rk) THEN E.rk[k0] ELSE 0) ELSE Best0

Broken(names) == /\ Bad(names) /\ ctl' = "done" /\ res' = "broken"
                 /\ UNCHANGED <<s, l, sync, cid, ign, inp, cp, pw, ts, ti, steps, out, warn>>

Step ==
  /\ ctl = "match" /\ sync /\ E.op = "tr" /\ ti < Len(ts) /\ ~MustFlip
  /\ LET B == BestSet(g, ts, ti) IN
     IF B = {} THEN (SkipToken \/ RaiseToken) /\ UNCHANGED tvars
     ELSE IF Rec \in B
          THEN ApplyRule(Rec) /\ UNCHANGED <<s, l, sync>>
               /\ Bad(If(E.st = "ok" /\ Rec # Best0, "C05.not-the-selected-rule"))
          ELSE Broken(If(E.st = "ok" /\ (k0 > Len(E.rk) \/ Rec # Best0), "C05.step")
                      \cup {"C03.applied"})

EndTr == /\ ctl = "match" /\ sync /\ E.op = "tr" /\ Finish /\ UNCHANGED tvars

\* All clauses about the outcome of a run.
RunClauses ==
  IF res = "broken" THEN {} ELSE
  LET st == IF E.op = "tk" THEN E.tks ELSE E.st
      nw == IF E.op = "tk" THEN E.nwk ELSE E.nw
  IN  If(st # res, "C07.outcome")
      \cup If(st # res /\ st \in {"nomatch"}, "C03.refused")
      \cup (IF E.op = "tr" /\ E.tks = "ok" /\ st \notin {"ok", "unrec", "nomatch"}
            THEN {"C05.raised"} \cup If(g.om # <<>>, "C06.raised") ELSE {})
      \cup If(st = res /\ nw # Len(warn), "C07.warnings")
      \cup (IF E.op = "tr" /\ st = "ok" /\ res = "ok"
            THEN LET full == out
                 IN If(E.out # full, "C05.output")
                    \cup If(E.out # full /\ g.om # <<>>, "C06.output")
                    \cup If(Len(E.rk) # Len(steps), "C05.last-matched-rules")
                    \cup If(Len(E.rk) = Len(steps) /\ E.rt # [ k \in DOMAIN steps |-> g.rules[steps[k][3]].t ],
                            "C05.last-matched-rule-tokens")
            ELSE {})

EndRun == /\ ctl = "done" /\ More /\ ctl' = "idle" /\ UNCHANGED <<cid, runvars>>
          /\ ign' = IF E.op = "tr" /\ E.tg > 0 THEN TRUE ELSE ign  \* set again by the session
          /\ Bad(RunClauses) /\ l' = l + 1 /\ sync' = FALSE /\ UNCHANGED s

Report == /\ ~More /\ l = Len(Events) + 1 /\ ctl = "idle"
          /\ PrintT(<<"DONE", s, errs>>)
          /\ l' = l + 1 /\ UNCHANGED <<s, sync, errs, vars>>

Next == Build \/ Ignore \/ MatchAt \/ Begin \/ Internal \/ Resync \/ EndTk
        \/ Flip \/ Step \/ EndTr \/ EndRun \/ Report
Spec == Init /\ [][Next]_<<vars, tvars>>
=============================================================================
