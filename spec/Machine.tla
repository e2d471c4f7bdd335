------------------------------- MODULE Machine -------------------------------
(***************************************************************************)
(* Small-step machine of one transliterator at work: tokenizing a character *)
(* at a time, selecting rules, inserting on-match productions, and raising   *)
(* or passing over errors.  One action per observable step of the code.      *)
(* The configuration is a parameter: Cfg(cid) is the (sorted) configuration of *)
(* transliterator cid.                                                         *)
(***************************************************************************)
EXTENDS GT

CONSTANT Cfg(_)

VARIABLES cid,     \* which configuration
          ign,   \* errors are ignored
          ctl,    \* control: idle, tok, match, done
          inp,   \* input string
          cp,     \* next character
          pw,    \* the last token kept is whitespace
          ts,    \* tokens so far (whole sequence once ctl = "match")
          ti,     \* current token
          steps, \* <<position, on-match key or 0, rule>> of the run so far
          out,   \* output so far
          warn,  \* places warned about: <<"char", cp>> or <<"token", ti>>
          res    \* result: none, ok, unrec, nomatch

vars == <<cid, ign, ctl, inp, cp, pw, ts, ti, steps, out, warn, res>>
runvars == <<inp, cp, pw, ts, ti, steps, out, warn, res>>

g == Cfg(cid)

MachineInit(cc, flag) ==
  /\ cid = cc /\ ign = flag /\ ctl = "idle" /\ inp = <<>> /\ cp = 1 /\ pw = TRUE
  /\ ts = <<>> /\ ti = 0 /\ steps = <<>> /\ out = <<>> /\ warn = <<>> /\ res = "none"

(* ------------------------------- calling -------------------------------- *)

Call(x) ==
  /\ ctl = "idle"
  /\ ctl' = "tok" /\ inp' = x /\ cp' = 1 /\ pw' = TRUE /\ ts' = <<g.wd>>
  /\ ti' = 0 /\ steps' = <<>> /\ out' = <<>> /\ warn' = <<>> /\ res' = "none"
  /\ UNCHANGED <<cid, ign>>

\* Matching a given token sequence (tokens are an argument, as in match_at).
CallOnTokens(q) ==
  /\ ctl = "idle"
  /\ ctl' = "match" /\ inp' = <<>> /\ cp' = 1 /\ pw' = TRUE /\ ts' = q
  /\ ti' = 2 /\ steps' = <<>> /\ out' = <<>> /\ warn' = <<>> /\ res' = "none"
  /\ UNCHANGED <<cid, ign>>

SetIgnore(b) == /\ ctl = "idle" /\ ign' = b /\ UNCHANGED <<cid, ctl>> /\ UNCHANGED runvars

Return == /\ ctl = "done" /\ ctl' = "idle" /\ UNCHANGED <<cid, ign>> /\ UNCHANGED runvars

(* ------------------------------ tokenizing ------------------------------ *)

TokenHere == Longest(g, inp, cp)

\* A token is kept.  A whitespace run under consolidation may be represented by
\* its first token or by the default token.
KeepToken(t) ==
  /\ ctl = "tok" /\ cp <= Len(inp) /\ TokenHere # 0
  /\ LET u == TokenHere
     IN  /\ ~(IsWs(g, u) /\ pw /\ Consol(g))
         /\ t = u \/ (t = g.wd /\ IsWs(g, u) /\ IsWs(g, g.wd) /\ Consol(g))
         /\ ts' = Append(ts, t) /\ pw' = IsWs(g, u) /\ cp' = cp + Len(g.tok[u])
  /\ UNCHANGED <<cid, ign, ctl, inp, ti, steps, out, warn, res>>

\* Whitespace that continues a run is dropped if whitespace is consolidated.
DropSpace ==
  /\ ctl = "tok" /\ cp <= Len(inp) /\ TokenHere # 0
  /\ IsWs(g, TokenHere) /\ pw /\ Consol(g)
  /\ cp' = cp + Len(g.tok[TokenHere])
  /\ UNCHANGED <<cid, ign, ctl, inp, pw, ts, ti, steps, out, warn, res>>

SkipChar ==
  /\ ctl = "tok" /\ cp <= Len(inp) /\ TokenHere = 0 /\ ign
  /\ warn' = Append(warn, <<"char", cp>>) /\ cp' = cp + 1
  /\ UNCHANGED <<cid, ign, ctl, inp, pw, ts, ti, steps, out, res>>

RaiseChar ==
  /\ ctl = "tok" /\ cp <= Len(inp) /\ TokenHere = 0 /\ ~ign
  /\ warn' = Append(warn, <<"char", cp>>) /\ res' = "unrec" /\ ctl' = "done"
  /\ UNCHANGED <<cid, ign, inp, cp, pw, ts, ti, steps, out>>

\* Trailing whitespace is trimmed (consolidation), the boundary token added.
RECURSIVE Trimmed(_)
Trimmed(q) == IF Len(q) > 1 /\ IsWs(g, q[Len(q)])
              THEN Trimmed(SubSeq(q, 1, Len(q) - 1)) ELSE q
EndTokens ==
  /\ ctl = "tok" /\ cp > Len(inp)
  /\ ts' = Append(IF Consol(g) THEN Trimmed(ts) ELSE ts, g.wd)
  /\ ctl' = "match" /\ ti' = 2
  /\ UNCHANGED <<cid, ign, inp, cp, pw, steps, out, warn, res>>

(* ------------------------------- matching ------------------------------- *)

\* One of the most specific rules that match is applied, preceded by the first
\* applicable on-match rule.
ApplyRule(k) ==
  /\ ctl = "match" /\ ti < Len(ts)
  /\ k \in BestSet(g, ts, ti)
  /\ LET o == OnMatchKey(g, ts, ti)
     IN  /\ steps' = Append(steps, <<ti, o, k>>)
         /\ out' = out \o (IF o = 0 THEN <<>> ELSE g.om[o].p) \o g.rules[k].p
  /\ ti' = ti + Len(g.rules[k].t)
  /\ UNCHANGED <<cid, ign, ctl, inp, cp, pw, ts, warn, res>>

SkipToken ==
  /\ ctl = "match" /\ ti < Len(ts) /\ MatchSet(g, ts, ti) = {} /\ ign
  /\ warn' = Append(warn, <<"token", ti>>) /\ ti' = ti + 1
  /\ UNCHANGED <<cid, ign, ctl, inp, cp, pw, ts, steps, out, res>>

RaiseToken ==
  /\ ctl = "match" /\ ti < Len(ts) /\ MatchSet(g, ts, ti) = {} /\ ~ign
  /\ warn' = Append(warn, <<"token", ti>>) /\ res' = "nomatch" /\ ctl' = "done"
  /\ UNCHANGED <<cid, ign, inp, cp, pw, ts, ti, steps, out>>

Finish ==
  /\ ctl = "match" /\ ti >= Len(ts)
  /\ res' = "ok" /\ ctl' = "done"
  /\ UNCHANGED <<cid, ign, inp, cp, pw, ts, ti, steps, out, warn>>

RunStep == \/ \E t \in DOMAIN g.tok : KeepToken(t)
           \/ DropSpace \/ SkipChar \/ RaiseChar \/ EndTokens
           \/ \E k \in DOMAIN g.rules : ApplyRule(k)
           \/ SkipToken \/ RaiseToken \/ Finish

(* ------------------------------ properties ------------------------------ *)

TypeOK ==
  /\ ctl \in {"idle", "tok", "match", "done"}
  /\ res \in {"none", "ok", "unrec", "nomatch"}
  /\ ctl = "idle" \/ (res = "none") = (ctl \in {"tok", "match"})
  /\ ign \in BOOLEAN /\ cp >= 1

\* C01, C02: the finished token sequence is the declarative one (up to the choice
\* of the token that represents a consolidated run).
TokensCorrect ==
  (ctl = "match" /\ inp # <<>>) => WsNorm(g, ts) = WsNorm(g, TokensOf(g, inp))
TokensExact == (ctl = "match" /\ ~Consol(g)) => ts = TokensOf(g, inp)
\* C01: without consolidation or skipped characters the tokens spell the input.
Spelling == (ctl = "match" /\ ~Consol(g) /\ warn = <<>> /\ steps = <<>>) =>
              Concat([ k \in 1..Len(ts) - 2 |-> g.tok[ts[k + 1]] ]) = inp
Ends == ctl = "match" => /\ Len(ts) >= 2 /\ ts[1] = g.wd /\ ts[Len(ts)] = g.wd
\* C02: no two adjacent whitespace tokens inside, none at the inner ends.
Collapsed ==
  (ctl = "match" /\ Consol(g) /\ IsWs(g, g.wd)) =>
     /\ \A k \in 2..Len(ts) - 2 : ~(IsWs(g, ts[k]) /\ IsWs(g, ts[k + 1]))
     /\ Len(ts) > 2 => ~IsWs(g, ts[2]) /\ ~IsWs(g, ts[Len(ts) - 1])
\* C03: every rule applied is a matching rule of greatest specificity.
BestApplied ==
  \A k \in DOMAIN steps :
     LET b == steps[k] IN
       /\ RuleAt(g, g.rules[b[3]], ts, b[1])
       /\ \A m \in MatchSet(g, ts, b[1]) : N(g.rules[m]) <= N(g.rules[b[3]])
\* C05: the applied rules and the places passed over cover the tokens in order.
SkippedTokens == { warn[k][2] : k \in { m \in DOMAIN warn : warn[m][1] = "token" } }
Covered ==
  (ctl \in {"match", "done"} /\ res \in {"none", "ok"}) =>
    LET last == IF ti > Len(ts) - 1 THEN Len(ts) - 1 ELSE ti - 1
        span(k) == steps[k][1] .. steps[k][1] + Len(g.rules[steps[k][3]].t) - 1
    IN /\ \A q \in 2..last : \/ q \in SkippedTokens
                             \/ \E k \in DOMAIN steps : q \in span(k)
       /\ \A k, m \in DOMAIN steps : k # m => span(k) \cap span(m) = {}
       /\ \A k \in DOMAIN steps : span(k) \cap SkippedTokens = {}
       /\ \A k \in DOMAIN steps : k > 1 => steps[k - 1][1] < steps[k][1]
OutputIs ==
  ctl \in {"match", "done"} =>
    out = Concat([ k \in DOMAIN steps |->
             (IF steps[k][2] = 0 THEN <<>> ELSE g.om[steps[k][2]].p)
               \o g.rules[steps[k][3]].p ])
\* C06
FirstOnMatch ==
  \A k \in DOMAIN steps :
    LET q == steps[k][1]  o == steps[k][2] IN
      /\ o # 0 => OnMatchAt(g, g.om[o], ts, q)
      /\ \A m \in DOMAIN g.om : OnMatchAt(g, g.om[m], ts, q) => o # 0 /\ o <= m
\* C07
NoRaiseIfIgnored == (ctl = "done" /\ ign) => res = "ok"
RaisesRight ==
  ctl = "done" =>
    /\ (res = "unrec") = (~ign /\ BadPlaces(g, inp, 1) # {})
    /\ res = "unrec" => warn = << <<"char", MinOf(BadPlaces(g, inp, 1))>> >>
    /\ res = "nomatch" => ~ign /\ warn # <<>> /\ warn[Len(warn)] = <<"token", ti>>
    /\ (res = "ok" /\ ~ign) => warn = <<>>
    /\ (res = "ok" /\ ign) =>
         { warn[k][2] : k \in { m \in DOMAIN warn : warn[m][1] = "char" } }
            = BadPlaces(g, inp, 1)
\* The machine refines the reference semantics where at most one rule is best.
NoTies == \A k \in DOMAIN steps : ~AmbiguousAt(g, ts, steps[k][1])
AgreesWithReference ==
  (ctl = "done" /\ NoTies /\ ts \in {<<g.wd>>, TokensOf(g, inp)}) =>
     <<res, IF res = "ok" THEN out ELSE <<>> >> = Reference(g, inp, ign)
=============================================================================
