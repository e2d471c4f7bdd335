---------------------------- MODULE MCSettings ----------------------------
(* Settings being edited: tokens come and go with their classes, rules, on-match   *)
(* rules, whitespace and metadata are added and dropped.  Written down directly or  *)
(* in the easy-reading notation, they are accepted exactly when Complete.           *)
EXTENDS Settings
CONSTANTS Names, Classes, MaxRules
VARIABLES tok, rules, om, ws
vars == <<tok, rules, om, ws>>
None == <<>>
RuleSet == { [pc |-> pc, pt |-> pt, t |-> t, nt |-> None, nc |-> nc] :
              pc \in {None} \cup { <<c>> : c \in Classes }, pt \in {None} \cup { <<n>> : n \in Names },
              t \in {None} \cup { <<n>> : n \in Names }, nc \in {None} \cup { <<c>> : c \in Classes } }
OmSet == { [pc |-> <<c>>, nc |-> <<d>>] : c, d \in Classes }
Init == tok = << >> /\ rules = None /\ om = None /\ ws = None
AddToken == \E n \in Names, C \in SUBSET Classes :
  n \notin DOMAIN tok /\ tok' = tok @@ (n :> C) /\ UNCHANGED <<rules, om, ws>>
DropToken == \E n \in DOMAIN tok :
  tok' = [m \in DOMAIN tok \ {n} |-> tok[m]] /\ UNCHANGED <<rules, om, ws>>
AddRule == \E r \in RuleSet :
  Len(rules) < MaxRules /\ rules' = Append(rules, r) /\ UNCHANGED <<tok, om, ws>>
DropRule == rules # None /\ rules' = Tail(rules) /\ UNCHANGED <<tok, om, ws>>
AddOm == om = None /\ (\E o \in OmSet : om' = <<o>>) /\ UNCHANGED <<tok, rules, ws>>
SetWs == \E n \in Names, c \in Classes : ws' = <<n, c>> /\ UNCHANGED <<tok, rules, om>>
Next == AddToken \/ DropToken \/ AddRule \/ DropRule \/ AddOm \/ SetWs
Spec == Init /\ [][Next]_vars

\* The guarantee, stated on the settings themselves.
Cls == UNION { tok[n] : n \in DOMAIN tok }
Complete ==
  /\ ws # None /\ ws[1] \in DOMAIN tok /\ ws[2] \in Cls
  /\ \A r \in RangeOf(rules) : /\ r.t # None
                               /\ RangeOf(r.t) \cup RangeOf(r.pt) \cup RangeOf(r.nt) \subseteq DOMAIN tok
                               /\ RangeOf(r.pc) \cup RangeOf(r.nc) \subseteq Cls
  /\ \A o \in RangeOf(om) : RangeOf(o.pc) \cup RangeOf(o.nc) \subseteq Cls

\* Written down.
S(x) == [k |-> "str", s |-> x]
L(vs) == [k |-> "list", vs |-> vs]
D(ks, vs) == [k |-> "dict", ks |-> ks, vs |-> vs]
RECURSIVE Listed(_)
Listed(X) == IF X = {} THEN None ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o Listed(X \ {x})
Ss(q) == L([j \in DOMAIN q |-> S(q[j])])
TokDoc == LET q == Listed(DOMAIN tok) IN
          D([j \in DOMAIN q |-> S(q[j])], [j \in DOMAIN q |-> Ss(Listed(tok[q[j]]))])
WsDoc == D(<<S("default"), S("token_class"), S("consolidate")>>, <<S(ws[1]), S(ws[2]), [k |-> "bool"]>>)
Rest == (IF ws # None THEN << <<S("whitespace"), WsDoc>> >> ELSE None)
        \o (IF om # None THEN << <<S("metadata"), D(<<S("x")>>, <<[k |-> "int"]>>)>> >> ELSE None)
Doc(rl, ol) == LET ps == << <<S("tokens"), TokDoc>>, <<S("rules"), rl>> >> \o Rest
                         \o (IF om # None THEN << <<S("onmatch_rules"), ol>> >> ELSE None)
               IN D([j \in DOMAIN ps |-> ps[j][1]], [j \in DOMAIN ps |-> ps[j][2]])
Direct == Doc(L([j \in DOMAIN rules |->
                  D(<<S("production"), S("tokens"), S("prev_classes"), S("prev_tokens"), S("next_classes")>>,
                    <<S("P"), Ss(rules[j].t), Ss(rules[j].pc), Ss(rules[j].pt), Ss(rules[j].nc)>>)]),
              L([j \in DOMAIN om |-> D(<<S("prev_classes"), S("next_classes"), S("production")>>,
                                       <<Ss(om[j].pc), Ss(om[j].nc), S("P")>>)]))
Easy == Doc(D([j \in DOMAIN rules |-> [k |-> "rule"] @@ rules[j]], [j \in DOMAIN rules |-> S("P")]),
            L([j \in DOMAIN om |-> D(<<[k |-> "om"] @@ om[j]>>, <<S("P")>>)]))
Want == IF Complete THEN "accept" ELSE "refuse"
DirectExact == DirectVerdict(Direct, FALSE) = Want
EasyExact == EasyVerdict(Easy, FALSE) = Want
\* Checking ambiguity may only refuse what is otherwise accepted.
Checked == /\ DirectVerdict(Direct, TRUE) = EasyVerdict(Easy, TRUE)
           /\ (Want = "refuse" => DirectVerdict(Direct, TRUE) = "refuse")
           /\ (Complete /\ Len(rules) <= 1 => DirectVerdict(Direct, TRUE) = "accept")
           /\ (Complete /\ Len(rules) = 2 /\ SameMatch(rules[1], rules[2])
                 => DirectVerdict(Direct, TRUE) = "refuse")
=============================================================================
