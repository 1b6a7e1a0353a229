-------------------------------- MODULE Zone --------------------------------
(***************************************************************************)
(* The shared stream table: name -> process slot owning it (-1: none), with *)
(* room for Cap names.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slots, Names, Cap, MaxOps, Gen
VARIABLES own, nops, log
vars == <<own, nops, log>>

Owned(o) == Cardinality({n \in Names : o[n] # -1})
Init == own = [n \in Names |-> -1] /\ nops = 0 /\ log = <<>>
Emit(a, s, n, res) ==
  /\ nops' = nops + 1
  /\ log' = IF Gen THEN Append(log, [a |-> a, s |-> s, n |-> n, res |-> res, alloc |-> Owned(own')]) ELSE log

InsertRes(o, s, n) == IF o[n] # -1 THEN o[n] ELSE IF Owned(o) < Cap THEN s ELSE -1
Insert(s, n) ==
  /\ nops < MaxOps
  /\ LET r == InsertRes(own, s, n)
     IN /\ own' = IF own[n] = -1 /\ r # -1 THEN [own EXCEPT ![n] = s] ELSE own
        /\ Emit("i", s, n, r)
Delete(s, n) ==
  /\ nops < MaxOps /\ own' = IF own[n] = s THEN [own EXCEPT ![n] = -1] ELSE own
  /\ Emit("d", s, n, 0)
Leave(s, a) ==  \* a process exits (x), or a new one starts in its slot (s)
  /\ nops < MaxOps /\ own' = [n \in Names |-> IF own[n] = s THEN -1 ELSE own[n]]
  /\ Emit(a, s, 0, 0)
Next == \E s \in Slots : \/ \E n \in Names : Insert(s, n) \/ Delete(s, n)
                         \/ \E a \in {"x", "s"} : Leave(s, a)
Spec == Init /\ [][Next]_vars

R(S) == {RandomElement({x \in S : nops >= 0})}
GenNext ==
  LET r == RandomElement({x \in 1..100 : nops >= 0})
      grow == (nops \div 40) % 2 = 0
  IN \E s \in R(Slots) :
       IF r <= (IF grow THEN 70 ELSE 35) THEN \E n \in R(Names) : Insert(s, n)
       ELSE IF r <= 92 THEN \E n \in R(Names) : (IF r % 4 = 0 \/ own[n] = -1 THEN Delete(s, n) ELSE Delete(own[n], n))
       ELSE IF r % 2 = 0 THEN Leave(s, IF r <= 96 THEN "x" ELSE "s") ELSE \E n \in R(Names) : Insert(s, n)

Bounded == Owned(own) <= Cap
\* only its owner (or the owner's exit) frees a name, and nobody takes it over
OnlyOwner == [][\A n \in Names : own[n] # own'[n] => own[n] = -1 \/ own'[n] = -1]_vars
View == own
=============================================================================
