------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* Which settings are accepted (C14).  A settings document is a tree of nodes     *)
(*   [k |-> "str", s]  [k |-> "list", vs]  [k |-> "dict", ks, vs]                 *)
(*   [k |-> "bool"/"int"/"float"/"none"]                                         *)
(* and, as keys of easy-reading rules, [k |-> "rule", pc, pt, t, nt, nc] and       *)
(* [k |-> "om", pc, nc] for text in the notation, [k |-> "junk"] for other text.   *)
(* Verdicts: "accept", "refuse", or "either" where the documentation is silent     *)
(* (values that can be taken for a documented type, unknown keys).                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
RangeOf(q) == { q[k] : k \in DOMAIN q }
IsStr(n) == n.k = "str"
StrList(n) == n.k = "list" /\ \A x \in RangeOf(n.vs) : IsStr(x)
Strs(n) == [ k \in DOMAIN n.vs |-> n.vs[k].s ]
\* A dictionary where a list of strings is wanted: its keys might be used.
Loose(n) == n.k = "dict"
KeyIs(n, key) == n.k = "str" /\ n.s = key
Has(d, key) == \E j \in DOMAIN d.ks : KeyIs(d.ks[j], key)
Get(d, key) == d.vs[CHOOSE j \in DOMAIN d.ks : KeyIs(d.ks[j], key)]
Opt(d, key) == IF Has(d, key) THEN Get(d, key) ELSE [k |-> "none"]
KnownKeys(d, keys) == \A j \in DOMAIN d.ks : d.ks[j].k = "str" /\ d.ks[j].s \in keys

\* The worst of several verdicts.
Worst(V) == IF "refuse" \in V THEN "refuse" ELSE IF "either" \in V THEN "either" ELSE "accept"
Must(b) == IF b THEN "accept" ELSE "refuse"
ListVerdict(n) == IF StrList(n) THEN "accept" ELSE IF Loose(n) THEN "either" ELSE "refuse"
OptListVerdict(n) == IF n.k = "none" THEN "accept" ELSE ListVerdict(n)

TokensVerdict(n) ==
  IF n.k # "dict" THEN "refuse"
  ELSE Worst({ Must(IsStr(x)) : x \in RangeOf(n.ks) } \cup { ListVerdict(x) : x \in RangeOf(n.vs) })
TokenNames(n) == { x.s : x \in { y \in RangeOf(n.ks) : IsStr(y) } }
ClassNames(n) == UNION { RangeOf(Strs(x)) : x \in { y \in RangeOf(n.vs) : StrList(y) } }

RuleParts == {"prev_classes", "prev_tokens", "next_tokens", "next_classes"}
RuleShape(r) ==
  IF r.k # "dict" THEN "refuse" ELSE
  Worst({ Must(Has(r, "production") /\ IsStr(Get(r, "production"))),
          IF ~Has(r, "tokens") THEN "refuse" ELSE
            LET t == Get(r, "tokens") IN
            IF StrList(t) THEN Must(t.vs # <<>>) ELSE IF Loose(t) THEN "either" ELSE "refuse",
          IF KnownKeys(r, RuleParts \cup {"production", "tokens"}) THEN "accept" ELSE "either" }
        \cup { OptListVerdict(Opt(r, p)) : p \in RuleParts })
Mentioned(r, p) == IF Has(r, p) /\ StrList(Get(r, p)) THEN RangeOf(Strs(Get(r, p))) ELSE {}
RuleRefs(r, toks, clss) ==
  IF r.k # "dict" THEN "refuse" ELSE
  Must(/\ \A p \in {"tokens", "prev_tokens", "next_tokens"} : Mentioned(r, p) \subseteq toks
       /\ \A p \in {"prev_classes", "next_classes"} : Mentioned(r, p) \subseteq clss)

OmShape(o) ==
  IF o.k # "dict" THEN "refuse" ELSE
  Worst({ Must(Has(o, "production") /\ IsStr(Get(o, "production"))),
          IF KnownKeys(o, {"prev_classes", "next_classes", "production"}) THEN "accept" ELSE "either" }
        \cup { IF ~Has(o, p) THEN "refuse"
               ELSE IF StrList(Get(o, p)) /\ Get(o, p).vs = <<>> THEN "either"
               ELSE ListVerdict(Get(o, p)) : p \in {"prev_classes", "next_classes"} })
OmRefs(o, clss) ==
  IF o.k # "dict" THEN "refuse" ELSE
  Must(\A p \in {"prev_classes", "next_classes"} : Mentioned(o, p) \subseteq clss)

WsVerdict(w, toks, clss) ==
  IF w.k # "dict" THEN "refuse" ELSE
  Worst({ Must(Has(w, "default") /\ IsStr(Get(w, "default")) /\ Get(w, "default").s \in toks),
          Must(Has(w, "token_class") /\ IsStr(Get(w, "token_class")) /\ Get(w, "token_class").s \in clss),
          Must(Has(w, "consolidate") /\ Get(w, "consolidate").k = "bool"),
          IF KnownKeys(w, {"default", "token_class", "consolidate"}) THEN "accept" ELSE "either" })
MetaVerdict(n) == IF n.k = "none" THEN "either"
                  ELSE IF n.k # "dict" THEN "refuse"
                  ELSE IF \A x \in RangeOf(n.ks) : IsStr(x) THEN "accept" ELSE "either"
Top == {"tokens", "rules", "whitespace", "onmatch_rules", "metadata"}

(* ------------------------------ ambiguity ---------------------------------- *)
\* Of rules as [pc, pt, t, nt, nc]: surely unambiguous if all begin with different
\* tokens; surely ambiguous if two of the longest are the same.
Size(r) == Len(r.pc) + Len(r.pt) + Len(r.t) + Len(r.nt) + Len(r.nc)
SameMatch(a, b) == a.pc = b.pc /\ a.pt = b.pt /\ a.t = b.t /\ a.nt = b.nt /\ a.nc = b.nc
AmbVerdict(rs) ==
  IF \A a, b \in DOMAIN rs : a # b => rs[a].t[1] # rs[b].t[1] THEN "accept"
  ELSE IF \E a, b \in DOMAIN rs : a # b /\ SameMatch(rs[a], rs[b])
                                  /\ \A c \in DOMAIN rs : Size(rs[c]) <= Size(rs[a])
       THEN "refuse" ELSE "either"
PartOf(r, p) == IF Has(r, p) /\ StrList(Get(r, p)) THEN Strs(Get(r, p)) ELSE <<>>
AsRule(r) == [ pc |-> PartOf(r, "prev_classes"), pt |-> PartOf(r, "prev_tokens"),
               t |-> PartOf(r, "tokens"), nt |-> PartOf(r, "next_tokens"),
               nc |-> PartOf(r, "next_classes") ]

(* ------------------------------ direct settings ----------------------------- *)
DirectVerdict(d, chk) ==
  IF d.k # "dict" THEN "refuse"
  ELSE IF ~(Has(d, "tokens") /\ Has(d, "rules") /\ Has(d, "whitespace")) THEN "refuse"
  ELSE
  LET tk == Get(d, "tokens")  rl == Get(d, "rules")  om == Opt(d, "onmatch_rules")
      tv == TokensVerdict(tk)
      toks == IF tk.k = "dict" THEN TokenNames(tk) ELSE {}
      clss == IF tk.k = "dict" THEN ClassNames(tk) ELSE {}
      loose == tv = "either"   \* what is defined is then not known
      rv == IF rl.k = "dict" /\ rl.ks = <<>> THEN "either"
            ELSE IF rl.k # "list" THEN "refuse"
            ELSE Worst({ RuleShape(r) : r \in RangeOf(rl.vs) } \cup { RuleRefs(r, toks, clss) : r \in RangeOf(rl.vs) })
      ov == IF om.k = "none" THEN (IF Has(d, "onmatch_rules") THEN "either" ELSE "accept")
            ELSE IF om.k = "dict" /\ om.ks = <<>> THEN "either"
            ELSE IF om.k # "list" THEN "refuse"
            ELSE Worst({ OmShape(o) : o \in RangeOf(om.vs) } \cup { OmRefs(o, clss) : o \in RangeOf(om.vs) })
      mv == IF Has(d, "metadata") THEN MetaVerdict(Get(d, "metadata")) ELSE "accept"
      wv == WsVerdict(Get(d, "whitespace"), toks, clss)
      kv == IF KnownKeys(d, Top) THEN "accept" ELSE "either"
      v == IF tv = "refuse" THEN "refuse" ELSE IF loose THEN "either" ELSE Worst({rv, ov, mv, wv, kv})
  IN IF v # "accept" \/ ~chk THEN v
     ELSE AmbVerdict([ j \in DOMAIN rl.vs |-> AsRule(rl.vs[j]) ])

(* ----------------------------- easy-reading settings -------------------------- *)
EasyRule(kn, toks, clss) ==
  IF kn.k # "rule" THEN "refuse"
  ELSE Must(/\ kn.t # <<>>
            /\ RangeOf(kn.t) \cup RangeOf(kn.pt) \cup RangeOf(kn.nt) \subseteq toks
            /\ RangeOf(kn.pc) \cup RangeOf(kn.nc) \subseteq clss)
EasyOm(o, clss) ==
  IF o.k # "dict" THEN "refuse"
  ELSE IF Len(o.ks) # 1 THEN "either"
  ELSE IF o.ks[1].k # "om" \/ ~IsStr(o.vs[1]) THEN "refuse"
  ELSE Must(RangeOf(o.ks[1].pc) \cup RangeOf(o.ks[1].nc) \subseteq clss)
EasyVerdict(d, chk) ==
  IF d.k # "dict" THEN "refuse"
  ELSE IF ~(Has(d, "tokens") /\ Has(d, "rules") /\ Has(d, "whitespace")) THEN "refuse"
  ELSE
  LET tk == Get(d, "tokens")  rl == Get(d, "rules")  om == Opt(d, "onmatch_rules")
      tv == TokensVerdict(tk)
      toks == IF tk.k = "dict" THEN TokenNames(tk) ELSE {}
      clss == IF tk.k = "dict" THEN ClassNames(tk) ELSE {}
      rv == IF rl.k # "dict" THEN "refuse"
            ELSE Worst({ EasyRule(x, toks, clss) : x \in RangeOf(rl.ks) } \cup { Must(IsStr(x)) : x \in RangeOf(rl.vs) })
      ov == IF om.k = "none" THEN (IF Has(d, "onmatch_rules") THEN "either" ELSE "accept")
            ELSE IF om.k = "dict" /\ om.ks = <<>> THEN "either"
            ELSE IF om.k # "list" THEN "refuse"
            ELSE Worst({ EasyOm(o, clss) : o \in RangeOf(om.vs) })
      mv == IF Has(d, "metadata") THEN MetaVerdict(Get(d, "metadata")) ELSE "accept"
      wv == WsVerdict(Get(d, "whitespace"), toks, clss)
      kv == IF KnownKeys(d, Top) THEN "accept" ELSE "either"
      v == IF tv = "refuse" THEN "refuse" ELSE IF tv = "either" THEN "either" ELSE Worst({rv, ov, mv, wv, kv})
  IN IF v # "accept" \/ ~chk THEN v ELSE AmbVerdict(rl.ks)
=============================================================================
