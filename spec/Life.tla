-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* The life of transliterators: several live objects and documents (dumps),    *)
(* and every public operation on them.  An object's configuration is which      *)
(* base settings it comes from and which productions were pruned, and its error  *)
(* setting; everything observable of it is a function of these.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Bases,      \* base settings
          Prods,      \* groups of productions that can be pruned
          Inputs,
          Levels,     \* compression levels that are supported
          MaxObjs, MaxDocs
VARIABLES objs,  \* [b, gone, ign, chk]
          docs,  \* [b, gone, ign, lev]
          memo,  \* results seen: [c, x, r], r standing for the result
          op     \* the last operation (for trace generation)
lvars == <<objs, docs, memo, op>>
Unset == 2
Obj(b, gone, ign, chk) == [b |-> b, gone |-> gone, ign |-> ign, chk |-> chk]
\* What a transliterator does with an input depends on this alone.
Conf(o) == <<o.b, o.gone, o.ign>>
Result(o, x) == <<Conf(o), x>>

LifeInit == objs = <<>> /\ docs = <<>> /\ memo = {} /\ op = <<"start">>
NewObj(o) == Len(objs) < MaxObjs /\ objs' = Append(objs, o)
Build(b, v, gone, ign, chk) == NewObj(Obj(b, gone, ign, chk)) /\ UNCHANGED <<docs, memo>>
                       /\ op' = <<"build", b, v, gone, ign, chk>>
Dump(k, lev, form) ==
  /\ Len(docs) < MaxDocs
  /\ docs' = Append(docs, [b |-> objs[k].b, gone |-> objs[k].gone, ign |-> objs[k].ign, lev |-> lev])
  /\ UNCHANGED <<objs, memo>> /\ op' = <<"dump", k, lev, form>>
\* Dumping changes nothing; also when the document is thrown away, or refused.
Redump(k, lev, form) == UNCHANGED <<objs, docs, memo>> /\ op' = <<"redump", k, lev, form>>
BadDump(k, lev) == lev \notin Levels /\ UNCHANGED <<objs, docs, memo>> /\ op' = <<"baddump", k, lev>>
Load(d, ign, chk) ==
  /\ NewObj(Obj(docs[d].b, docs[d].gone, IF ign = Unset THEN docs[d].ign ELSE ign,
                IF chk = Unset THEN 0 ELSE chk))
  /\ UNCHANGED <<docs, memo>> /\ op' = <<"load", d, ign, chk>>
Prune(k, ps, how) ==
  /\ NewObj([objs[k] EXCEPT !.gone = @ \cup ps])
  /\ UNCHANGED <<docs, memo>> /\ op' = <<"prune", k, ps, how>>
SetIgnore(k, v) == objs' = [objs EXCEPT ![k].ign = v] /\ UNCHANGED <<docs, memo>> /\ op' = <<"set", k, v>>
Use(kind, k, x) == /\ memo' = memo \cup {[c |-> Conf(objs[k]), x |-> <<kind, x>>, r |-> Result(objs[k], <<kind, x>>)]}
                   /\ UNCHANGED <<objs, docs>> /\ op' = <<kind, k, x>>
\* (The quantifiers range over sets that depend on the state, so that each disjunct is one
\* action for the simulator, which picks among actions first.)
Here(S) == { x \in S : Len(objs) < MaxObjs }
K == DOMAIN objs
LifeNext ==
  \/ \E b \in Here(Bases), v \in Here(0..1), gone \in Here({ {}, {1} }), ign \in Here(0..1), chk \in Here(0..1) :
       Build(b, v, gone, ign, chk)
  \/ \E k \in K : \E lev \in Levels, form \in {"data", "text"} : Dump(k, lev, form)
  \/ \E k \in K : \E lev \in Levels, form \in {"data", "text"} : Redump(k, lev, form)
  \/ \E k \in K : BadDump(k, 3)
  \/ \E k \in K : \E v \in 0..1 : SetIgnore(k, v)
  \/ \E k \in K : \E p \in Prods, how \in {"str", "list"} : Prune(k, {p}, how)
  \/ \E k \in K : \E ps \in SUBSET Prods : Cardinality(ps) # 1 /\ Prune(k, ps, "list")
  \/ \E k \in K : \E x \in Inputs : Use("run", k, x)
  \/ \E k \in K : \E x \in Inputs, kind \in {"tok", "mat"} : Use(kind, k, x)
  \/ \E d \in DOMAIN docs : \E ign \in 0..2, chk \in 0..2 : Load(d, ign, chk)

(* ------------------------------ properties ------------------------------ *)
\* Results depend only on the configuration and the input.
Functional == \A m, n \in memo : m.c = n.c /\ m.x = n.x => m.r = n.r
\* No operation but SetIgnore alters an existing object; none alters a document.
Unaffected ==
  [][ /\ \A k \in DOMAIN objs : /\ k \in DOMAIN objs'
                                /\ [objs'[k] EXCEPT !.ign = objs[k].ign] = objs[k]
                                /\ objs'[k].ign # objs[k].ign => op' = <<"set", k, objs'[k].ign>>
      /\ \A d \in DOMAIN docs : d \in DOMAIN docs' /\ docs'[d] = docs[d] ]_lvars
\* A chain of dumps and loads leads back to the same configuration: any object's base is one
\* that was built, and what is pruned was pruned.
Grounded == \A k \in DOMAIN objs : objs[k].b \in Bases /\ objs[k].gone \subseteq Prods
=============================================================================
