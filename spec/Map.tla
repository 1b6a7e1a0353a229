-------------------------------- MODULE Map --------------------------------
(***************************************************************************)
(* The ordered map ngx_map: keys 1..K in key order, nodes owned by the     *)
(* caller.  m[k] is the node stored under k (0: none).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS K, N, Depth, Gen
VARIABLES m, h, log
vars == <<m, h, log>>

Keys == 1..K
Nodes == 1..N
Init == m = [k \in Keys |-> 0] /\ h = <<>> /\ log = <<>>

RECURSIVE Fwd(_, _)
Fwd(f, k) == IF k > K THEN <<>> ELSE (IF f[k] = 0 THEN <<>> ELSE <<f[k]>>) \o Fwd(f, k + 1)

Emit(a, k, n, c) ==
  log' = IF Gen THEN Append(log, [a |-> a, k |-> k, n |-> n, c |-> c, fwd |-> Fwd(m', 1), find |-> m']) ELSE log

\* a node is in the map under one key at most
Usable(n, k) == \A x \in Keys : m[x] = n => x = k

Insert(k, n, c) ==
  /\ Usable(n, k) /\ Len(h) < Depth
  /\ m' = IF m[k] = 0 \/ c = 1 THEN [m EXCEPT ![k] = n] ELSE m
  /\ h' = Append(h, <<"i", k, n, c>>) /\ Emit("i", k, n, c)
Delete(k) ==
  /\ Len(h) < Depth /\ m' = [m EXCEPT ![k] = 0]
  /\ h' = Append(h, <<"d", k, 0, 0>>) /\ Emit("d", k, 0, 0)
Next == \/ \E k \in Keys, n \in Nodes, c \in {0, 1} : Insert(k, n, c)
        \/ \E k \in Keys : Delete(k)
Spec == Init /\ [][Next]_vars

R(S) == {RandomElement({x \in S : Len(log) >= 0})}
Free == {n \in Nodes : \A k \in Keys : m[k] # n}
GenNext ==
  LET r == RandomElement({x \in 1..100 : Len(log) >= 0})
      full == (Len(log) \div 60) % 2 = 1      \* growing and shrinking phases
  IN IF r <= (IF full THEN 35 ELSE 65) THEN \E k \in R(Keys), c \in R({0, 1}) :
          IF m[k] # 0 /\ r % 7 = 0 THEN Insert(k, m[k], c)    \* the same node again
          ELSE IF Free = {} THEN Delete(k) ELSE \E n \in R(Free) : Insert(k, n, c)
     ELSE \E k \in R(Keys) : Delete(k)

\* the map read off the history: the last insertion which took effect
RECURSIVE Stored(_, _)
Stored(hh, k) ==
  IF hh = <<>> THEN 0
  ELSE LET e == hh[Len(hh)] p == SubSeq(hh, 1, Len(hh) - 1)
       IN IF e[2] # k THEN Stored(p, k)
          ELSE IF e[1] = "d" THEN 0
          ELSE IF e[4] = 1 THEN e[3]
          ELSE LET q == Stored(p, k) IN IF q = 0 THEN e[3] ELSE q
LastStored == \A k \in Keys : m[k] = Stored(h, k)
Injective == \A k, x \in Keys : (m[k] # 0 /\ m[k] = m[x]) => k = x
Sized == Len(Fwd(m, 1)) = Cardinality({k \in Keys : m[k] # 0})
View == m
=============================================================================
