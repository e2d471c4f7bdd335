------------------------------ MODULE TraceCli ------------------------------
(***************************************************************************)
(* Judges real command lines against what the library returned for the same        *)
(* sources and options (C22), and histories of make-json.                          *)
(***************************************************************************)
EXTENDS Cli, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, errs,
          stale   \* make-json: the names whose JSON differs from their YAML
Ev == Data[s].ev
E == Ev[l]
If(c, n) == IF c THEN {n} ELSE {}
Names == Data[s].names
Matching(p) == { n \in DOMAIN Names : PatMatches(p, Names[n]) }
ToSet(q) == { q[k] : k \in DOMAIN q }
Found ==
  CASE E.op = "transliterate" ->
         If((E.exit = 0) # Succeeds(E.load, E.res), "C22.transliterate-exit")
         \cup (IF E.exit = 0 /\ Succeeds(E.load, E.res)
               THEN If(E.shape # Shape(E.res), "C22.transliterate-shape")
                    \cup If(E.ys # Texts(E.res), "C22.transliterate-output")
               ELSE {})
    [] E.op = "dump" ->
         If((E.exit = 0) # (E.load = "ok"), "C22.dump-exit")
         \cup If(E.exit = 0 /\ E.load = "ok" /\ E.loaded # E.lib, "C22.dump-loads-to-another")
         \cup If(E.exit = 0 /\ E.load = "ok" /\ E.text # 1, "C22.dump-differs")
    [] E.op \in {"dump-tests", "generate-tests", "list-bundled", "test"} ->
         If((E.exit = 0) # (E.load = "ok"), "C22." \o E.op \o "-exit")
         \cup If(E.exit = 0 /\ E.load = "ok" /\ E.got # E.lib, "C22." \o E.op)
    [] E.op = "make" ->
         If(E.exit # 0, "C22.make-json-exit")
         \cup If(\E n \in ToSet(E.changed) : n \notin Matching(E.pat), "C22.make-json-too-many")
         \cup If(\E n \in Matching(E.pat) : n \in stale /\ n \notin ToSet(E.changed), "C22.make-json-missing")
         \cup If(ToSet(E.differ) # stale \ Matching(E.pat), "C22.make-json-content")
    [] OTHER -> {}
Init == s \in DOMAIN Data /\ l = 1 /\ errs = {} /\ stale = {}
Step == /\ l <= Len(Ev)
        /\ errs' = errs \cup { <<n, l>> : n \in Found }
        /\ stale' = CASE E.op = "stale" -> stale \cup ToSet(E.ns)
                      [] E.op = "make" -> stale \ Matching(E.pat)
                      [] OTHER -> stale
        /\ l' = l + 1 /\ UNCHANGED s
Report == /\ l = Len(Ev) + 1 /\ PrintT(<<"DONE", s, errs>>)
          /\ l' = l + 1 /\ UNCHANGED <<s, errs, stale>>
Next == Step \/ Report
Spec == Init /\ [][Next]_<<s, l, errs, stale>>
=============================================================================
