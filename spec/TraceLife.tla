----------------------------- MODULE TraceLife -----------------------------
(***************************************************************************)
(* Judges recorded histories of live transliterators against Life.            *)
(* What is observable of each object is recorded after every operation as     *)
(* identities (equal iff the contents are equal); rl gives the contents of     *)
(* rule lists.  An object's observed configuration is fixed when it is made:    *)
(* no later operation but setting ignore_errors may alter it, and results are   *)
(* a function of it.                                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES s, l,
          objs,  \* [live, p (projection), lin (how it came about), chk, key, src]
          docs,  \* [live, p, lev, form, norm, lin]
          memo,  \* results seen
          texts, \* dumps seen
          errs
vars == <<s, l, objs, docs, memo, texts, errs>>
Ev == Data[s].ev
E == Ev[l]
RL == Data[s].rl
If(c, n) == IF c THEN {n} ELSE {}
Conf(p) == <<p.rules, p.tok, p.om, p.ws, p.ign>>
Same(p, q) == p.rules = q.rules /\ p.tok = q.tok /\ p.om = q.om /\ p.ws = q.ws
Dead == [live |-> FALSE, p |-> E.proj[Len(E.proj)], lin |-> {}, chk |-> 0, key |-> 0, key0 |-> 0,
         norm |-> 0, nlev |-> 9, nform |-> "", nign |-> 9]
New == E.proj[Len(E.proj)]
Range(q) == { q[k] : k \in DOMAIN q }

\* Objects other than a new one are as before (n of them); k may have another ign.
Drift(n, k, ign) ==
  { j \in 1..n : LET q == IF j = k THEN [objs[j].p EXCEPT !.ign = ign] ELSE objs[j].p
                 IN E.proj[j] # q }
DriftClauses(n, k, ign) ==
  LET dr == Drift(n, k, ign) IN
  If(dr # {}, "C08.configuration-changed")
  \cup If(dr # {} /\ E.op = "prune", "C17.original-affected")
  \cup If(E.intact = 0, "C08.settings-changed")
  \cup If(E.kept = 0, "C08.result-changed")
  \cup If(E.intact = 0 /\ E.op = "load", "C13.settings-modified")
\* Follow what was recorded, so that each fault is named once.
Follow(q) == [ j \in DOMAIN q |-> [q[j] EXCEPT !.p = E.proj[j]] ]
Put(names) == errs' = errs \cup { <<n, l>> : n \in names }
Go == l' = l + 1 /\ UNCHANGED s
n0 == Len(objs)

Build ==
  /\ E.op = "build"
  /\ LET ok == E.st = "ok" IN
     /\ objs' = Append(Follow(objs), IF ~ok THEN Dead ELSE
          [live |-> TRUE, p |-> New, lin |-> {}, chk |-> E.chk, key |-> E.key, key0 |-> E.o,
           norm |-> 0, nlev |-> 9, nform |-> "", nign |-> 9])
     /\ Put(DriftClauses(n0, 0, 0)
            \cup If(E.chk = 0 /\ ~ok, "C11.rejected-unchecked")
            \cup If(ok /\ New.ign # E.ign, "C07.initial-setting"))
  /\ Go /\ UNCHANGED <<docs, memo, texts>>

Load ==
  /\ E.op = "load" /\ E.st # "skip"
  /\ LET d == docs[E.d]
         ok == E.st = "ok"
         ign == IF E.ign = 2 THEN d.p.ign ELSE E.ign IN
     /\ objs' = Append(Follow(objs), IF ~ok THEN Dead ELSE
          [live |-> TRUE, p |-> New, lin |-> d.lin \cup {"load"}, chk |-> IF E.chk = 1 THEN 1 ELSE 0,
           key |-> 0, key0 |-> 0, norm |-> d.norm, nlev |-> d.lev, nform |-> d.form,
           nign |-> IF New.ign = d.p.ign THEN d.p.ign ELSE 9])
     /\ Put(DriftClauses(n0, 0, 0)
          \cup If(ok /\ E.chk = 1 /\ E.amb = 1, "C13.check-ambiguity-ignored")
          \cup If(~ok /\ ~(E.chk = 1 /\ E.amb = 1 /\ E.st = "ambiguous"), "C12.refused")
          \cup If(~ok /\ E.chk # 1 /\ E.st = "ambiguous", "C13.ambiguity-checked")
          \cup (IF ~ok THEN {} ELSE
                If(New.rules # d.p.rules, "C12.rules") \cup If(New.tok # d.p.tok, "C12.tokens")
                \cup If(New.om # d.p.om, "C12.onmatch") \cup If(New.ws # d.p.ws, "C12.whitespace")
                \cup If(New.meta # d.p.meta, "C12.metadata")
                \cup If(E.ign = 2 /\ New.ign # ign, "C12.ignore-errors")
                \cup If(E.ign # 2 /\ New.ign # ign, "C13.ignore-errors")))
  /\ Go /\ UNCHANGED <<docs, memo, texts>>

Prune ==
  /\ E.op = "prune" /\ E.st # "skip"
  /\ LET o == objs[E.o]
         ok == E.st = "ok"
         R == RL[o.p.rules]
         kept == SelectSeq([ k \in DOMAIN R.r |-> k ], LAMBDA k : R.p[k] \notin Range(E.prods))
         want == [ j \in DOMAIN kept |-> R.r[kept[j]] ] IN
     /\ objs' = Append(Follow(objs), IF ~ok THEN Dead ELSE
          [live |-> TRUE, p |-> New, lin |-> o.lin \cup {"prune"}, chk |-> o.chk, key |-> 0, key0 |-> 0,
           norm |-> 0, nlev |-> 9, nform |-> "", nign |-> 9])
     /\ Put(DriftClauses(n0, 0, 0)
          \cup If(~ok /\ ~(o.chk = 1 /\ E.amb = 1 /\ E.st = "ambiguous"), "C17.refused")
          \cup (IF ~ok THEN {} ELSE
                If(New.rules < 1 \/ RL[New.rules].r # want, "C17.rules")
                \cup If(New.tok # o.p.tok, "C17.tokens") \cup If(New.om # o.p.om, "C17.onmatch")
                \cup If(New.ws # o.p.ws, "C17.whitespace") \cup If(New.meta # o.p.meta, "C17.metadata")
                \cup If(New.ign # o.p.ign, "C17.ignore-errors")))
  /\ Go /\ UNCHANGED <<docs, memo, texts>>

\* Dumps of the same configuration have the same text: see C24.
TextClauses(o, e) ==
  LET same == { t \in texts : t.lev = E.lev /\ t.form = E.form /\ t.ign = o.p.ign } IN
  If(\E t \in same : t.o = E.o /\ t.text # E.text, "C24.repeat")
  \cup If(o.key # 0 /\ \E t \in same : t.key = o.key /\ t.o # E.o /\ t.text # E.text, "C24.rebuild")
  \cup If(o.key # 0 /\ E.lev > 0 /\ \E t \in same : t.key0 = o.key0 /\ t.key # o.key /\ t.text # E.text,
          "C24.class-order")
  \cup If(o.nlev = E.lev /\ o.nform = E.form /\ o.nign = o.p.ign /\ o.norm # E.norm, "C24.reload")
  \cup If(E.ver # 1, "C24.version") \cup If(E.plain # 1, "C24.plain")
Dump ==
  /\ E.op \in {"dump", "redump"} /\ E.st # "skip"
  /\ LET o == objs[E.o]
         ok == E.st = "ok" IN
     /\ objs' = Follow(objs)
     /\ docs' = IF E.op = "redump" THEN docs ELSE
          Append(docs, [live |-> ok, p |-> o.p, lev |-> E.lev, form |-> E.form,
                        norm |-> E.norm, lin |-> o.lin])
     /\ texts' = IF ~ok THEN texts ELSE texts \cup
          {[o |-> E.o, key |-> o.key, key0 |-> o.key0, lev |-> E.lev, form |-> E.form,
            ign |-> o.p.ign, text |-> E.text]}
     /\ Put(DriftClauses(n0, 0, 0) \cup If(~ok, "C12.dump-refused")
            \cup (IF ok THEN TextClauses(o, E) ELSE {}))
  /\ Go /\ UNCHANGED memo

BadDump == /\ E.op = "baddump" /\ E.st # "skip"
           /\ Put(DriftClauses(n0, 0, 0) \cup If(E.st = "ok", "C12.level-accepted"))
           /\ objs' = Follow(objs) /\ Go /\ UNCHANGED <<docs, memo, texts>>

SetIgn == /\ E.op = "set" /\ E.st # "skip"
          /\ Put(DriftClauses(n0, E.o, E.ign))
          /\ objs' = Follow(objs) /\ Go /\ UNCHANGED <<docs, memo, texts>>

Use ==
  /\ E.op = "use" /\ E.st # "skip"
  /\ LET o == objs[E.o]
         c == Conf(o.p)
         bad == { m \in memo : m.c = c /\ m.x = E.x /\ m.r # E.rid } IN
     /\ memo' = memo \cup {[c |-> c, x |-> E.x, r |-> E.rid, o |-> E.o, lin |-> o.lin]}
     /\ Put(DriftClauses(n0, 0, 0)
          \cup If(\E m \in bad : m.o = E.o \/ m.lin \cup o.lin = {}, "C08.result")
          \cup If(\E m \in bad : m.o # E.o /\ "load" \in m.lin \cup o.lin, "C12.behaviour")
          \cup If(\E m \in bad : m.o # E.o /\ "prune" \in m.lin \cup o.lin, "C17.behaviour"))
  /\ objs' = Follow(objs) /\ Go /\ UNCHANGED <<docs, texts>>

Skip ==
  /\ E.st = "skip"
  /\ objs' = IF E.op \in {"load", "prune"} THEN Append(Follow(objs), Dead) ELSE Follow(objs)
  /\ docs' = IF E.op = "dump" THEN Append(docs, [live |-> FALSE, p |-> 0, lev |-> 9, form |-> "",
                                               norm |-> 0, lin |-> {}]) ELSE docs
  /\ Put(DriftClauses(n0, 0, 0)) /\ Go /\ UNCHANGED <<memo, texts>>

Init == /\ s \in DOMAIN Data /\ l = 1 /\ objs = <<>> /\ docs = <<>> /\ memo = {} /\ texts = {}
        /\ errs = {}
Report == /\ l = Len(Ev) + 1 /\ PrintT(<<"DONE", s, errs>>)
          /\ l' = l + 1 /\ UNCHANGED <<s, objs, docs, memo, texts, errs>>
Next == (l <= Len(Ev) /\ (Build \/ Load \/ Prune \/ Dump \/ BadDump \/ SetIgn \/ Use \/ Skip)) \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
