----------------------------- MODULE ZoneTrace -----------------------------
(***************************************************************************)
(* Concurrent histories recorded from real workers: is each of them a       *)
(* linearization of Zone?  H[h] = [ops |-> <<[s, a, n, res, pre]>>,         *)
(* alloc |-> nodes in use at the end], pre: the operations which had         *)
(* returned before this one began.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS H, NNames, NSlots, Cap
VARIABLES h, hist, done, own
vars == <<h, hist, done, own>>
View == <<h, done, own>>
Names == 1..NNames
Init == /\ LET all == H IN \E i \in 1..Len(all) : h = i /\ hist = all[i]
        /\ done = {} /\ own = [n \in Names |-> -1]
Owned == Cardinality({n \in Names : own[n] # -1})
Op(i) ==
  LET o == hist.ops[i]
  IN /\ i \notin done /\ \A k \in 1..Len(o.pre) : o.pre[k] \in done
     /\ done' = done \cup {i} /\ UNCHANGED <<h, hist>>
     /\ IF o.a = "d" THEN own' = IF own[o.n] = o.s THEN [own EXCEPT ![o.n] = -1] ELSE own
        ELSE IF own[o.n] # -1 THEN o.res = own[o.n] /\ UNCHANGED own
        ELSE \* nodes being taken or given back by others count as well
             \/ o.res = o.s /\ Owned < Cap /\ own' = [own EXCEPT ![o.n] = o.s]
             \/ o.res = -1 /\ Owned + NSlots - 1 >= Cap /\ UNCHANGED own
Next == \E i \in 1..Len(hist.ops) : Op(i)
Accepted == done = 1..Len(hist.ops) /\ Owned = hist.alloc
=============================================================================
