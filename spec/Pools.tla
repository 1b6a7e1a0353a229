------------------------------- MODULE Pools -------------------------------
(***************************************************************************)
(* Chain buffers (ngx_rbuf) and debugged pools (ngx_poold): what is held,  *)
(* and how many objects were ever needed at once.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slots, Sizes, MaxOps, Gen
VARIABLES held,   \* slot: size of its buffer, 0: chain link only, -1: free
          pool,   \* slots which hold a pool
          hwc, hws, hwp,   \* most chain links, buffers per size, pools held at once
          nops, log
vars == <<held, pool, hwc, hws, hwp, nops, log>>

Init == /\ held = [s \in Slots |-> -1] /\ pool = {} /\ hwc = 0 /\ hws = [z \in Sizes |-> 0] /\ hwp = 0
        /\ nops = 0 /\ log = <<>>
Max(a, b) == IF a > b THEN a ELSE b
Links(x) == Cardinality({s \in Slots : x[s] # -1})
Bufs(x, z) == Cardinality({s \in Slots : x[s] = z})
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET z == CHOOSE z \in S : TRUE IN f[z] + Sum(f, S \ {z})
Emit(a, s, z) ==
  /\ nops' = nops + 1
  /\ log' = IF ~Gen THEN log ELSE Append(log,
       [a |-> a, s |-> s, z |-> z, links |-> Links(held'), bufs |-> Sum([y \in Sizes |-> Bufs(held', y)], Sizes),
        hwc |-> hwc', hwb |-> Sum(hws', Sizes), nodes |-> Cardinality({y \in Sizes : hws'[y] > 0}),
        pools |-> Cardinality(pool'), hwp |-> hwp'])

Get(s, z) ==  \* z = 0: without a buffer
  /\ held[s] = -1 /\ nops < MaxOps /\ held' = [held EXCEPT ![s] = z]
  /\ hwc' = Max(hwc, Links(held')) /\ hws' = [y \in Sizes |-> Max(hws[y], Bufs(held', y))]
  /\ UNCHANGED <<pool, hwp>> /\ Emit("get", s, z)
Put(s, a) ==  \* a = "twice": the second time must have no effect
  /\ held[s] # -1 /\ nops < MaxOps /\ held' = [held EXCEPT ![s] = -1]
  /\ UNCHANGED <<pool, hwc, hws, hwp>> /\ Emit(a, s, 0)
Create(s) ==
  /\ s \notin pool /\ nops < MaxOps /\ pool' = pool \cup {s} /\ hwp' = Max(hwp, Cardinality(pool'))
  /\ UNCHANGED <<held, hwc, hws>> /\ Emit("create", s, 0)
Destroy(s, a) ==
  /\ s \in pool /\ nops < MaxOps /\ pool' = pool \ {s}
  /\ UNCHANGED <<held, hwc, hws, hwp>> /\ Emit(a, s, 0)
Next == \E s \in Slots :
          \/ \E z \in Sizes \cup {0} : Get(s, z)
          \/ Put(s, "put") \/ Put(s, "twice")
          \/ Create(s) \/ Destroy(s, "destroy") \/ Destroy(s, "dtwice")
Spec == Init /\ [][Next]_vars
R(S) == {RandomElement({x \in S : nops >= 0})}
GenNext ==
  LET r == RandomElement({x \in 1..100 : nops >= 0})
      grow == (nops \div 25) % 2 = 0
  IN \E s \in R(Slots) :
       IF r <= 75
       THEN IF held[s] = -1 THEN (IF grow \/ r % 3 = 0 THEN \E z \in R(Sizes \cup {0}) : Get(s, z) ELSE \E x \in R(Slots) : IF held[x] = -1 THEN Get(x, 0) ELSE Put(x, "put"))
            ELSE Put(s, IF r % 8 = 0 THEN "twice" ELSE "put")
       ELSE IF s \in pool THEN Destroy(s, IF r % 5 = 0 THEN "dtwice" ELSE "destroy") ELSE Create(s)

NeverLess == Links(held) <= hwc /\ Cardinality(pool) <= hwp /\ \A z \in Sizes : Bufs(held, z) <= hws[z]
Needed == hwc <= Cardinality(Slots) /\ hwp <= Cardinality(Slots)
View == <<held, pool, hwc, hws, hwp>>
=============================================================================
