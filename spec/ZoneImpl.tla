------------------------------ MODULE ZoneImpl ------------------------------
(***************************************************************************)
(* How the shared stream table does it: buckets of linked nodes, each with  *)
(* a lock, and a free list with a lock of its own.  One process per slot    *)
(* runs one operation at a time; processes interleave between any two       *)
(* accesses to shared memory.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slots, Names, NB, Cap, MaxOps
VARIABLES head, glock, block, nxt, nm, sl, free, alloc,  \* shared memory
          pc, op, arg, cur, nx, got, res, bk,            \* per process
          nops, ret
shared == <<head, glock, block, nxt, nm, sl, free, alloc>>
vars == <<head, glock, block, nxt, nm, sl, free, alloc, pc, op, arg, cur, nx, got, res, bk, nops, ret>>
Nodes == 0..(Cap - 1)
Bk(n) == n % NB
Buckets == 0..(NB - 1)

Init ==
  /\ head = [b \in Buckets |-> -1] /\ glock = -1 /\ block = [b \in Buckets |-> -1]
  /\ nxt = [i \in Nodes |-> IF i = Cap - 1 THEN -1 ELSE i + 1] /\ nm = [i \in Nodes |-> 0] /\ sl = [i \in Nodes |-> -1]
  /\ free = 0 /\ alloc = 0
  /\ pc = [s \in Slots |-> "idle"] /\ op = [s \in Slots |-> ""] /\ arg = [s \in Slots |-> 0]
  /\ cur = [s \in Slots |-> -1] /\ nx = [s \in Slots |-> -1] /\ got = [s \in Slots |-> -1] /\ res = [s \in Slots |-> -1]
  /\ bk = [s \in Slots |-> 0] /\ nops = 0 /\ ret = [s \in Slots |-> -2]

Go(s, l) == pc' = [pc EXCEPT ![s] = l]
Start(s) ==
  /\ pc[s] = "idle" /\ nops < MaxOps /\ nops' = nops + 1
  /\ \E o \in {"i", "d", "x"} : \E n \in (IF o = "x" THEN {0} ELSE Names) :
       /\ op' = [op EXCEPT ![s] = o] /\ arg' = [arg EXCEPT ![s] = n]
       /\ bk' = [bk EXCEPT ![s] = IF o = "x" THEN 0 ELSE Bk(n)]
  /\ Go(s, "lock") /\ ret' = [ret EXCEPT ![s] = -2]
  /\ UNCHANGED <<shared, cur, nx, got, res>>
Lock(s) ==
  /\ pc[s] = "lock" /\ block[bk[s]] = -1 /\ block' = [block EXCEPT ![bk[s]] = s]
  /\ cur' = [cur EXCEPT ![s] = -1] /\ nx' = [nx EXCEPT ![s] = head[bk[s]]] /\ Go(s, "scan")
  /\ UNCHANGED <<head, glock, nxt, nm, sl, free, alloc, op, arg, got, res, bk, nops, ret>>
\* one node looked at
Scan(s) ==
  /\ pc[s] = "scan"
  /\ LET n == nx[s]
         hit == IF n = -1 THEN FALSE ELSE IF op[s] = "x" THEN sl[n] = s ELSE nm[n] = arg[s]
     IN IF n = -1
        THEN /\ Go(s, IF op[s] = "i" THEN "glock" ELSE "unlock") /\ UNCHANGED <<cur, nx, res, head, nxt, got>>
        ELSE IF ~hit
        THEN /\ cur' = [cur EXCEPT ![s] = n] /\ nx' = [nx EXCEPT ![s] = nxt[n]] /\ UNCHANGED <<pc, res, head, nxt, got>>
        ELSE IF op[s] = "i"
        THEN /\ res' = [res EXCEPT ![s] = sl[n]] /\ Go(s, "unlock") /\ UNCHANGED <<cur, nx, head, nxt, got>>
        ELSE IF sl[n] # s
        THEN /\ Go(s, "unlock") /\ UNCHANGED <<cur, nx, res, head, nxt, got>>
        ELSE \* unlinked
             /\ head' = IF cur[s] = -1 THEN [head EXCEPT ![bk[s]] = nxt[n]] ELSE head
             /\ nxt' = IF cur[s] = -1 THEN nxt ELSE [nxt EXCEPT ![cur[s]] = nxt[n]]
             /\ got' = [got EXCEPT ![s] = n] /\ Go(s, "glock") /\ UNCHANGED <<cur, nx, res>>
  /\ UNCHANGED <<glock, block, nm, sl, free, alloc, op, arg, bk, nops, ret>>
GLock(s) ==
  /\ pc[s] = "glock" /\ glock = -1 /\ glock' = s /\ Go(s, IF op[s] = "i" THEN "pop" ELSE "push")
  /\ UNCHANGED <<head, block, nxt, nm, sl, free, alloc, op, arg, cur, nx, got, res, bk, nops, ret>>
Pop(s) ==
  /\ pc[s] = "pop"
  /\ IF free = -1
     THEN res' = [res EXCEPT ![s] = -1] /\ Go(s, "gunlock") /\ UNCHANGED <<nxt, nm, sl, free, alloc, got>>
     ELSE /\ got' = [got EXCEPT ![s] = free] /\ free' = nxt[free] /\ nxt' = [nxt EXCEPT ![free] = -1]
          /\ nm' = [nm EXCEPT ![free] = arg[s]] /\ sl' = [sl EXCEPT ![free] = s] /\ alloc' = alloc + 1
          /\ Go(s, "gunlock") /\ UNCHANGED res
  /\ UNCHANGED <<head, glock, block, op, arg, cur, nx, bk, nops, ret>>
Push(s) ==
  /\ pc[s] = "push"
  /\ nxt' = [nxt EXCEPT ![got[s]] = free] /\ free' = got[s] /\ alloc' = alloc - 1 /\ got' = [got EXCEPT ![s] = -1]
  /\ Go(s, "gunlock")
  /\ UNCHANGED <<head, glock, block, nm, sl, op, arg, cur, nx, res, bk, nops, ret>>
GUnlock(s) ==
  /\ pc[s] = "gunlock" /\ glock' = -1
  /\ IF op[s] = "i" /\ got[s] # -1 THEN Go(s, "link") /\ UNCHANGED nx
     ELSE IF op[s] = "x" \* go on from the same place
     THEN Go(s, "scan") /\ nx' = [nx EXCEPT ![s] = IF cur[s] = -1 THEN head[bk[s]] ELSE nxt[cur[s]]]
     ELSE Go(s, "unlock") /\ UNCHANGED nx
  /\ UNCHANGED <<head, block, nxt, nm, sl, free, alloc, op, arg, cur, got, res, bk, nops, ret>>
Link(s) ==
  /\ pc[s] = "link" /\ nxt' = [nxt EXCEPT ![got[s]] = head[bk[s]]] /\ head' = [head EXCEPT ![bk[s]] = got[s]]
  /\ res' = [res EXCEPT ![s] = s] /\ got' = [got EXCEPT ![s] = -1] /\ Go(s, "unlock")
  /\ UNCHANGED <<glock, block, nm, sl, free, alloc, op, arg, cur, nx, bk, nops, ret>>
Unlock(s) ==
  /\ pc[s] = "unlock" /\ block' = [block EXCEPT ![bk[s]] = -1]
  /\ IF op[s] = "x" /\ bk[s] < NB - 1 THEN Go(s, "lock") /\ bk' = [bk EXCEPT ![s] = @ + 1] /\ UNCHANGED <<ret, res>>
     ELSE Go(s, "idle") /\ ret' = [ret EXCEPT ![s] = res[s]] /\ res' = [res EXCEPT ![s] = -1] /\ UNCHANGED bk
  /\ UNCHANGED <<head, glock, nxt, nm, sl, free, alloc, op, arg, cur, nx, got, nops>>

Step(s) == Start(s) \/ Lock(s) \/ Scan(s) \/ GLock(s) \/ Pop(s) \/ Push(s) \/ GUnlock(s) \/ Link(s) \/ Unlock(s)
Next == \E s \in Slots : Step(s)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A s \in Slots : SF_vars(Lock(s) \/ GLock(s)) /\ WF_vars(Scan(s) \/ Pop(s) \/ Push(s) \/ GUnlock(s) \/ Link(s) \/ Unlock(s))

RECURSIVE Chain(_, _)
Chain(i, k) == IF i = -1 \/ k > Cap THEN <<>> ELSE <<i>> \o Chain(nxt[i], k + 1)
InBucket(b) == Chain(head[b], 0)
Range(q) == {q[i] : i \in 1..Len(q)}
OwnerOf(n) == LET c == {i \in Range(InBucket(Bk(n))) : nm[i] = n} IN IF c = {} THEN -1 ELSE sl[CHOOSE i \in c : TRUE]
own == [n \in Names |-> OwnerOf(n)]
Abs == INSTANCE Zone WITH own <- own, nops <- 0, log <- <<>>, Gen <- FALSE
\* the table changes only as the table of Zone does, one name at a time
Refines == [][\A n, m \in Names : (own[n] # own'[n] /\ own[m] # own'[m]) => n = m]_own
OwnerFrees == [][\A n \in Names : own[n] # own'[n] =>
                  \/ own[n] = -1 /\ own'[n] \in Slots /\ pc[own'[n]] = "link" /\ arg[own'[n]] = n
                  \/ own'[n] = -1 /\ pc[own[n]] = "scan" /\ op[own[n]] \in {"d", "x"}]_vars
\* every node is in one place
Places(i) == Cardinality({b \in Buckets : i \in Range(InBucket(b))}) + (IF i \in Range(Chain(free, 0)) THEN 1 ELSE 0)
             + Cardinality({s \in Slots : got[s] = i})
Conserved == \A i \in Nodes : Places(i) = 1
OneEntry == \A b \in Buckets : \A i, j \in Range(InBucket(b)) : nm[i] = nm[j] => i = j
RightBucket == \A b \in Buckets : \A i \in Range(InBucket(b)) : Bk(nm[i]) = b
Counted == glock = -1 => alloc = Cap - Len(Chain(free, 0))
\* what an insertion answers is the owner at that moment
Answer == [][\A s \in Slots : (pc[s] \in {"scan", "link"} /\ op[s] = "i" /\ res[s] # res'[s]) => res'[s] = own'[arg[s]]]_vars
NoDeadlock == (\A s \in Slots : pc[s] = "idle") \/ \E s \in Slots : ENABLED Step(s)
Finish == \A s \in Slots : pc[s] # "idle" ~> pc[s] = "idle"
\* a process which has left owns nothing
Gone == \A s \in Slots : (pc[s] = "idle" /\ op[s] = "x") => \A n \in Names : own[n] # s
=============================================================================
