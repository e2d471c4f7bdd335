-------------------------------- MODULE MCCli --------------------------------
(* The commands as machines, over all small libraries, arguments, names and patterns. *)
EXTENDS Cli, FiniteSets
CONSTANTS MaxArgs, Texts0, Letters, MaxName
Outcomes == { [st |-> "ok", y |-> t] : t \in Texts0 } \cup { [st |-> "failed", y |-> "none"] }
VARIABLES load, res, pc, k, out, names, file, pat, todo
vars == <<load, res, pc, k, out, names, file, pat, todo>>
Words == UNION { [1..n -> Letters] : n \in 0..MaxName }
AltSet == { [lit |-> w, tail |-> t, z |-> z] : w \in Words, t \in {"open", "end", "one", "last"},
            z \in { <<x>> : x \in Letters } }
Init == \/ /\ pc = "load" /\ load \in {"ok", "failed"}
           /\ res \in UNION { [1..n -> Outcomes] : n \in 0..MaxArgs }
           /\ k = 1 /\ out = [st |-> "none", shape |-> "none", ys |-> <<>>]
           /\ names = {} /\ file = <<>> /\ pat = <<>> /\ todo = {}
        \/ /\ pc = "make" /\ load = "ok" /\ res = <<>> /\ k = 1
           /\ out = [st |-> "none", shape |-> "none", ys |-> <<>>]
           /\ names \in { n \in SUBSET (Words \ {<<>>}) : Cardinality(n) \in 1..2 }
           /\ file = [ n \in names |-> "old" ] /\ todo = names
           /\ pat \in { <<a>> : a \in AltSet }
\* transliterate
Load == /\ pc = "load"
        /\ (IF load = "ok" THEN pc' = "args" /\ UNCHANGED out
            ELSE pc' = "done" /\ out' = [out EXCEPT !.st = "failed"])
        /\ UNCHANGED <<load, res, k, names, file, pat, todo>>
Arg == /\ pc = "args" /\ k <= Len(res)
       /\ (IF res[k].st = "ok" THEN out' = [out EXCEPT !.ys = Append(@, res[k].y)] /\ UNCHANGED pc
           ELSE pc' = "done" /\ out' = [out EXCEPT !.st = "failed"])
       /\ k' = k + 1 /\ UNCHANGED <<load, res, names, file, pat, todo>>
Print == /\ pc = "args" /\ k > Len(res) /\ pc' = "done"
         /\ out' = [out EXCEPT !.st = "ok", !.shape = Shape(res)]
         /\ UNCHANGED <<load, res, k, names, file, pat, todo>>
\* make-json
Make == /\ pc = "make" /\ todo # {}
        /\ \E n \in todo : /\ file' = (IF PatMatches(pat, n) THEN [file EXCEPT ![n] = "new"] ELSE file)
                           /\ todo' = todo \ {n}
        /\ UNCHANGED <<load, res, pc, k, out, names, pat>>
Next == Load \/ Arg \/ Print \/ Make
Spec == Init /\ [][Next]_vars
Printed == pc = "done" => /\ (out.st = "ok") = Succeeds(load, res)
                          /\ out.st = "ok" => out.ys = Texts(res) /\ out.shape = Shape(res)
Made == pc = "make" /\ todo = {} => { n \in names : file[n] = "new" } = { n \in names : PatMatches(pat, n) }
\* A name matches itself; "one" and "last" are special cases of "open".
Exact == \A n \in names : PatMatches(<<[lit |-> n, tail |-> "end", z |-> <<>>]>>, n)
Wider == pc = "make" => \A n \in names : PatMatches(pat, n) =>
           PatMatches(<<[lit |-> pat[1].lit, tail |-> "open", z |-> <<>>]>>, n)
=============================================================================
