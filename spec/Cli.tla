--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line (C22): what every command must print, given what the library   *)
(* returns, and which files make-json rewrites.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences
\* --- transliterate: load is the outcome of loading, res those of the arguments.
AllOk(res) == \A k \in DOMAIN res : res[k].st = "ok"
Succeeds(load, res) == load = "ok" /\ AllOk(res)
Shape(res) == IF Len(res) = 1 THEN "str" ELSE "list"
Texts(res) == [ k \in DOMAIN res |-> res[k].y ]
\* --- patterns of make-json: a name, or a regular expression that is a sequence of
\* alternatives, each a text that begins the name followed by
\*   "open" anything,  "end" nothing,  "one" one character and then anything,
\*   "last" anything and then the text z, which ends the name.
Begins(x, y) == Len(x) <= Len(y) /\ SubSeq(y, 1, Len(x)) = x
AltMatches(a, x) ==
  CASE a.tail = "open" -> Begins(a.lit, x)
    [] a.tail = "end" -> a.lit = x
    [] a.tail = "one" -> Begins(a.lit, x) /\ Len(x) > Len(a.lit)
    [] OTHER -> /\ Begins(a.lit, x) /\ Len(x) >= Len(a.lit) + Len(a.z)
                /\ SubSeq(x, Len(x) - Len(a.z) + 1, Len(x)) = a.z
PatMatches(p, x) == \E k \in DOMAIN p : AltMatches(p[k], x)
=============================================================================
