------------------------------ MODULE TraceCov ------------------------------
(* Judges recorded histories of coverage-checking transliterators (C19) against  *)
(* Coverage.  lo and hi bound what has been visited; where the visits themselves  *)
(* are recorded both are what was recorded.                                       *)
EXTENDS Coverage, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, errs, g, lo, hi
vars == <<s, l, errs, g, lo, hi>>
Ev == Data[s].ev
E == Ev[l]
If(c, n) == IF c THEN {n} ELSE {}
Obs(x) == [n |-> Range(x.vn), e |-> Range(x.ve), o |-> Range(x.vo)]
Seen == Data[s].hasv = 1
Ign == Data[s].ign = 1
ValidTs(q) == \A k \in DOMAIN q : q[k] \in DOMAIN g.tok

Clean(names) == errs' = errs \cup { <<n, l>> : n \in names }
\* The visits of this event were between L and H.
Visited(L, H, more) ==
  LET new == Obs(E)
      a == Join(lo, L)  b == Join(hi, H)
  IN  IF ~Seen THEN lo' = a /\ hi' = b /\ Clean(more)
      ELSE /\ lo' = new /\ hi' = new
           /\ Clean(more
                \cup If(~Within(lo, new), "C19.forgot")
                \cup If(Within(lo, new) /\ ~Within(a, new), "C19.not-visited")
                \cup If(~Within(new, b), IF H = Nothing THEN "C19.visited-unasked" ELSE "C19.strayed"))

Init == s \in DOMAIN Data /\ l = 1 /\ errs = {} /\ g = Sorted(Data[s].cfg)
        /\ lo = (IF Data[s].hasv = 1 THEN Obs(Data[s].allfirst) ELSE Nothing)
        /\ hi = lo

Res == If(E.same = 0, "C19.result-differs")
Run ==
  /\ E.op = "run"
  /\ IF E.tkst # "ok" THEN Visited(Nothing, Nothing, Res)
     ELSE IF ~ValidTs(E.ts) THEN lo' = lo /\ hi' = Join(hi, All(g)) /\ Clean({})
     ELSE LET F(j, i) == IF E.st = "ok" THEN (IF BestSet(g, E.ts, i) = {} THEN 0
                                               ELSE IF j \in DOMAIN E.rk THEN E.rk[j] ELSE 0)
                         ELSE IF i \in DOMAIN E.best THEN E.best[i] ELSE 0
              b == TLCEval(Band(g, E.ts, Ign, F, 1, 2))
          IN Visited(b.lo, b.hi, Res)
Match ==
  /\ E.op = "ma"
  /\ LET h == MostAt(g, E.ts, E.i)
         K == IF E.st = "ok" THEN Range(E.rk) \cap DOMAIN g.rules ELSE {}
     IN Visited(Ways(g, K), h, Res)
Tokenize == E.op = "tok" /\ Visited(Nothing, Nothing, Res)
Clear ==
  /\ E.op = "clear" /\ lo' = (IF Seen THEN Obs(E) ELSE Nothing)
  /\ hi' = lo'
  /\ Clean(If(E.st # "ok", "C19.clear-raised") \cup If(Seen /\ Obs(E) # Nothing, "C19.not-cleared"))
\* Verdicts: what was recorded is one of those that the bounds allow.
May == LET gf == GraphFull(g, hi)  gn == ~GraphFull(g, lo)
           of == OmFull(g, hi)     on == ~OmFull(g, lo)
       IN (IF gn THEN {"graphcov"} ELSE {}) \cup (IF gf /\ on THEN {"omcov"} ELSE {})
          \cup (IF gf /\ of THEN {"ok"} ELSE {})
MayGraph == (IF GraphFull(g, lo) THEN {} ELSE {"graphcov"})
            \cup (IF GraphFull(g, hi) THEN {"ok"} ELSE {})
MayOm == (IF OmFull(g, lo) THEN {} ELSE {"omcov"}) \cup (IF OmFull(g, hi) THEN {"ok"} ELSE {})
Check ==
  /\ E.op \in {"check", "checkquiet", "gcheck", "gcheckquiet", "omcheck", "omcheckquiet"}
  /\ LET may == IF E.op \in {"check", "checkquiet"} THEN May
                ELSE IF E.op \in {"gcheck", "gcheckquiet"} THEN MayGraph ELSE MayOm
         raising == E.op \in {"check", "gcheck", "omcheck"}
         bad == IF raising THEN E.st \notin may
                ELSE E.st # "ok" \/ (E.v = 1 /\ "ok" \notin may) \/ (E.v = 0 /\ may = {"ok"})
     IN Visited(Nothing, Nothing, If(bad, "C19.verdict"))
Other == /\ E.op \in {"dump", "prune", "useother", "read"}
         /\ Visited(Nothing, Nothing, If(E.st # "ok", "C19.raised"))
Step == /\ l <= Len(Ev)
        /\ (Run \/ Match \/ Tokenize \/ Clear \/ Check \/ Other)
        /\ l' = l + 1 /\ UNCHANGED <<s, g>>
Report == /\ l = Len(Ev) + 1
          /\ PrintT(<<"DONE", s, errs \cup { <<n, 1>> : n \in
                IF Data[s].hasv = 1 /\ Obs(Data[s].allfirst) # Nothing THEN {"C19.visited-at-first"} ELSE {} }>>)
          /\ l' = l + 1 /\ UNCHANGED <<s, errs, g, lo, hi>>
Next == Step \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
