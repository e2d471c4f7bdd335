------------------------------ MODULE MCThreads ------------------------------
(***************************************************************************)
(* Two calls at the same time on one transliterator: two Machines with the same      *)
(* configuration, interleaved step by step.  The only thing they share is what can    *)
(* be seen of the last run (last), which no step reads.  A call made from a logging   *)
(* handler is the interleaving in which the outer one pauses at a warning.            *)
(***************************************************************************)
EXTENDS GT, TLC
CONSTANT Cfg(_), MaxInput, Letters

VARIABLES cid, ign,
          c1, i1, p1, w1, ts1, ti1, st1, o1, wn1, r1,
          c2, i2, p2, w2, ts2, ti2, st2, o2, wn2, r2,
          last
A == INSTANCE Machine WITH ctl <- c1, inp <- i1, cp <- p1, pw <- w1, ts <- ts1, ti <- ti1,
       steps <- st1, out <- o1, warn <- wn1, res <- r1
B == INSTANCE Machine WITH ctl <- c2, inp <- i2, cp <- p2, pw <- w2, ts <- ts2, ti <- ti2,
       steps <- st2, out <- o2, warn <- wn2, res <- r2
va == <<c1, i1, p1, w1, ts1, ti1, st1, o1, wn1, r1>>
vb == <<c2, i2, p2, w2, ts2, ti2, st2, o2, wn2, r2>>
vars == <<cid, ign, va, vb, last>>

Toks == << <<97>>, <<98>>, <<97, 98>>, <<32>> >>
CM == << <<0, 1>>, <<0, 0>>, <<0, 1>>, <<1, 0>> >>
R(prod, pcs, pts, tt, nts, ncs) ==
  [p |-> prod, pc |-> pcs, pt |-> pts, t |-> tt, nt |-> nts, nc |-> ncs]
Sets == << << R(<<65>>, <<>>, <<>>, <<1>>, <<>>, <<>>), R(<<67>>, <<>>, <<>>, <<3>>, <<>>, <<1>>),
              R(<<32>>, <<>>, <<>>, <<4>>, <<>>, <<>>) >>,
           << R(<<65>>, <<>>, <<>>, <<1>>, <<>>, <<>>), R(<<66>>, <<>>, <<1>>, <<1, 2>>, <<>>, <<>>),
              R(<<68>>, <<2>>, <<>>, <<2>>, <<4>>, <<>>) >> >>
Oms == << <<>>, << [pc |-> <<2>>, nc |-> <<2>>, p |-> <<43>>] >> >>
Ids == (DOMAIN Sets) \X (DOMAIN Oms) \X {0, 1}
CfgOf(id) == Sorted([ tok |-> Toks, cm |-> CM, rules |-> Sets[id[1]], om |-> Oms[id[2]],
                      wd |-> 4, wc |-> 1, wk |-> id[3] ])
CfgTable == TLCEval([ id \in Ids |-> CfgOf(id) ])
CfgDef(id) == CfgTable[id]
Inputs == UNION { [1..m -> Letters] : m \in 1..MaxInput }

Init == /\ \E id \in Ids, f \in BOOLEAN : A!MachineInit(id, f) /\ B!MachineInit(id, f)
        /\ last = 0
Calls == /\ c1 = "idle" /\ c2 = "idle" /\ r1 = "none" /\ r2 = "none"
         /\ \E x, y \in Inputs : A!Call(x) /\ B!Call(y)
         /\ UNCHANGED last
One == A!RunStep /\ UNCHANGED vb /\ last' = (IF st1' # st1 THEN 1 ELSE last)
Two == B!RunStep /\ UNCHANGED va /\ last' = (IF st2' # st2 THEN 2 ELSE last)
Ended == c1 = "done" /\ c2 = "done" /\ UNCHANGED vars
Next == Calls \/ One \/ Two \/ Ended
Spec == Init /\ [][Next]_vars /\ WF_vars(Calls) /\ WF_vars(One) /\ WF_vars(Two)
BothAgree == A!AgreesWithReference /\ B!AgreesWithReference
BothEnd == <>(c1 = "done" /\ c2 = "done")
=============================================================================
