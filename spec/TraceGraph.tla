----------------------------- MODULE TraceGraph -----------------------------
(***************************************************************************)
(* Judges recorded search graphs against the prefix tree of Graph (C18).       *)
(* A graph is nodes [ty, tok, rule, acc, oc], edges [h, t, cost, constraints]   *)
(* and the edge list; costs are ranks, comparable with those of the rules.      *)
(***************************************************************************)
EXTENDS Graph, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, errs, p
Ev == Data[s].ev
If(c, n) == IF c THEN {n} ELSE {}
Put(names) == errs' = errs \cup { <<n, l>> : n \in names }

IsPerm(q, S) == Len(q) = Cardinality(S) /\ Range(q) = S

\* The nodes from k up to the root, at most n of them.
RECURSIVE Up(_, _, _)
Up(par, k, n) == IF k = 0 \/ n = 0 THEN <<>> ELSE Append(Up(par, par[k], n - 1), k)

\* What the clauses need of a graph, worked out once: the edge into each node, its
\* parent, its children and the way to it from the root.
Prep(E) ==
  LET nd == TLCEval(E.nodes)
      ed == TLCEval(E.edges)
      K == DOMAIN nd
      ok == E.st = "ok" /\ K # {} /\ \A e \in Range(ed) : e.h \in K /\ e.t \in K
      In == TLCEval([ k \in K |-> { j \in DOMAIN ed : ed[j].t = k } ])
      par == TLCEval([ k \in K |-> IF In[k] = {} THEN 0 ELSE ed[CHOOSE j \in In[k] : TRUE].h ])
      way == TLCEval([ k \in K |-> Up(par, k, Len(nd) + 1) ])
      one == In[1] = {} /\ \A k \in K \ {1} : Cardinality(In[k]) = 1
      tree == one /\ \A k \in K : way[k] # <<>> /\ Len(way[k]) <= Len(nd) /\ way[k][1] = 1
  IN IF ~ok THEN [ok |-> FALSE]
     ELSE IF ~tree THEN [ok |-> TRUE, tree |-> FALSE]
     ELSE [ok |-> TRUE, tree |-> TRUE,
           cost |-> [ k \in K |-> IF k = 1 THEN 0 ELSE ed[CHOOSE j \in In[k] : TRUE].cost ],
           kids |-> [ k \in K |-> { ed[j].t : j \in { x \in DOMAIN ed : ed[x].h = k } } ],
           way  |-> way,
           under |-> [ k \in K |-> { nd[c].rule : c \in { x \in K : nd[x].ty = 2 /\ k \in Range(way[x]) } } ] ]

Toks(nd, w) == LET q == SelectSeq(w, LAMBDA k : nd[k].ty = 1) IN [ j \in DOMAIN q |-> nd[q[j]].tok ]

Clauses(E) ==
  IF ~p.ok THEN {"C18.malformed"} ELSE
  LET nd == E.nodes
      ed == E.edges
      K == DOMAIN nd
      rs == E.rules
  IN
  If(nd[1].ty # 0 \/ \E k \in K \ {1} : nd[k].ty \notin {1, 2}, "C18.types")
  \cup If(~p.tree, "C18.not-a-tree")
  \cup If(Len(E.el) # Len(ed) \/ Range(E.el) # { <<e.h, e.t>> : e \in Range(ed) }, "C18.edge-list")
  \cup If(Cardinality({ <<e.h, e.t>> : e \in Range(ed) }) # Len(ed), "C18.edge-twice")
  \cup (IF ~p.tree THEN {} ELSE
  LET Kids == p.kids
      Leaves == { k \in K : nd[k].ty = 2 }
      Sorted2(q) == \A a \in 1..Len(q) - 1 : p.cost[q[a]] <= p.cost[q[a + 1]]
  IN
  If(\E k \in K : (nd[k].acc = 1) # (nd[k].ty = 2), "C18.accepting")
  \cup If(\E k \in K : nd[k].ty # 2 /\ k # 1 /\ Kids[k] = {}, "C18.dead-end")
  \cup If(\E k \in Leaves : Kids[k] # {}, "C18.leaf-with-children")
  \cup If(Cardinality(Leaves) # Len(rs) \/ { nd[k].rule : k \in Leaves } # DOMAIN rs, "C18.leaves")
  \cup If(\E k \in Leaves : nd[k].rule \in DOMAIN rs /\ Toks(nd, p.way[k]) # rs[nd[k].rule].t, "C18.path")
  \cup If(\E k \in K : LET ts == { c \in Kids[k] : nd[c].ty = 1 } IN
                        Cardinality({ nd[c].tok : c \in ts }) # Cardinality(ts), "C18.siblings")
  \cup If(\E e \in Range(ed) :
            IF nd[e.t].ty = 2 /\ nd[e.t].rule \in DOMAIN rs
            THEN LET r == rs[nd[e.t].rule] IN
                 <<e.pc, e.pt, e.nt, e.nc, e.odd>> # <<r.pc, r.pt, r.nt, r.nc, 0>>
            ELSE <<e.pc, e.pt, e.nt, e.nc, e.odd>> # <<<<>>, <<>>, <<>>, <<>>, 0>>, "C18.constraints")
  \cup If(\E e \in Range(ed) : LET B == p.under[e.t] IN
            B # {} /\ B \subseteq DOMAIN rs /\ e.cost # MinOf({ E.rcost[k] : k \in B }), "C18.cost")
  \cup If(\E k \in K : LET oc == nd[k].oc
                           R == { c \in Kids[k] : nd[c].ty = 2 }
                           T(t) == { c \in Kids[k] : nd[c].ty = 1 /\ nd[c].tok = t }
                           want == { nd[c].tok : c \in Kids[k] \ R } \cup (IF R = {} THEN {} ELSE {0})
                       IN \/ { oc[a].k : a \in { x \in DOMAIN oc : oc[x].c # <<>> } } # want
                          \/ \E a, b \in DOMAIN oc : a # b /\ oc[a].k = oc[b].k
                          \/ \E a \in DOMAIN oc : ~IsPerm(oc[a].c, IF oc[a].k = 0 THEN R ELSE
                                                       IF oc[a].c = <<>> THEN {} ELSE T(oc[a].k) \cup R),
          "C18.children")
  \cup If(\E k \in K : \E a \in DOMAIN nd[k].oc :
            LET q == nd[k].oc[a].c IN Range(q) \subseteq K \ {1} /\ ~Sorted2(q), "C18.children-order")
  )
None == [ok |-> FALSE, none |-> 1]
Init == s \in DOMAIN Data /\ l = 1 /\ errs = {} /\ p = None
Read == l <= Len(Ev) /\ p = None /\ p' = Prep(Ev[l]) /\ UNCHANGED <<s, l, errs>>
Step == l <= Len(Ev) /\ p # None /\ Put(Clauses(Ev[l])) /\ l' = l + 1 /\ p' = None /\ UNCHANGED s
Report == /\ l = Len(Ev) + 1 /\ PrintT(<<"DONE", s, errs>>)
          /\ l' = l + 1 /\ UNCHANGED <<s, errs, p>>
Next == Read \/ Step \/ Report
Spec == Init /\ [][Next]_<<s, l, errs, p>>
=============================================================================
