--------------------------- MODULE TraceNotation ---------------------------
(* Judges what the real code reads from text in the notation (C15). *)
EXTENDS Notation, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, errs
S == Data[s]
Ev == S.ev
E == Ev[l]
If(c, n) == IF c THEN {n} ELSE {}
RangeOf(q) == { q[k] : k \in DOMAIN q }
Judge(r, proper, parts, toks) ==
  LET known == /\ r.ok
               /\ \A p \in parts : RangeOf(r[p]) \subseteq (IF p \in toks THEN RangeOf(S.tok) ELSE RangeOf(S.cls))
  IN IF E.st = "ok"
     THEN IF ~r.ok THEN {"C15.not-notation-accepted"}
          ELSE IF ~known THEN {"C15.undefined-accepted"}
          ELSE UNION { If(E.got[p] # r[p], "C15." \o p) : p \in parts }
     ELSE If(known /\ proper, "C15.refused")
\* With a token of one space, doubled or outer spaces may stand for it.
Murky(q) == Space \in RangeOf(S.tok) /\ E.x # Space /\ ~Proper(E.x, q)
Rule == LET q == Lex(E.x) IN
        IF Murky(q) THEN {} ELSE
        Judge(RuleOf(E.x), E.x = Space \/ Proper(E.x, q), {"pc", "pt", "t", "nt", "nc"}, {"pt", "t", "nt"})
Om == LET q == OmLex(E.x) IN
      IF Murky(q) THEN {} ELSE Judge(ReadOm(q), Proper(E.x, q), {"pc", "nc"}, {})
\* Settings in several forms: all give the transliterator of the direct settings.
Same == If(\E j \in DOMAIN E.ids : E.ids[j] # E.ids[1], "C15.differs-from-direct")
Init == s \in DOMAIN Data /\ l = 1 /\ errs = {}
Step == /\ l <= Len(Ev)
        /\ errs' = errs \cup { <<n, l>> : n \in (CASE E.op = "rule" -> Rule [] E.op = "om" -> Om [] OTHER -> Same) }
        /\ l' = l + 1 /\ UNCHANGED s
Report == /\ l = Len(Ev) + 1 /\ PrintT(<<"DONE", s, errs>>)
          /\ l' = l + 1 /\ UNCHANGED <<s, errs>>
Next == Step \/ Report
Spec == Init /\ [][Next]_<<s, l, errs>>
=============================================================================
