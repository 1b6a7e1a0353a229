------------------------------ MODULE Cluster ------------------------------
(***************************************************************************)
(* The workers of a server, each with addresses of its own: an address is  *)
(* derived from the process slot of the worker, a table in shared memory   *)
(* tells the slot of each worker.  Requests go to an address, are relayed  *)
(* to a worker by another one, or are broadcast to all of them, while      *)
(* workers die, exit, are respawned, and all are replaced by a reload.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Workers,        \* numbers of the workers, 0..n-1
          Slots,          \* process slots
          MaxProc,        \* bound on processes ever started
          MaxOps, Gen
VARIABLES proc,           \* processes: id -> [gen, w, slot, st, n]; st: up, quit (reload: finishing), dead, gone (exited)
          gen,            \* number of reloads
          table,          \* generation -> worker -> slot or -1
          at,             \* slot -> process listening at its addresses, 0: nobody
          held,           \* the master is held: nobody is respawned
          nops, log
vars == <<proc, gen, table, at, held, nops, log>>
View == <<proc, gen, table, at, held>>

Procs == DOMAIN proc
Live(p) == proc[p].st \in {"up", "quit"}
Mine(g) == {p \in Procs : proc[p].gen = g}
(* the process of a worker, the last one which was started                   *)
Of(w) == LET c == {p \in Mine(gen) : proc[p].w = w} IN CHOOSE p \in c : \A q \in c : q <= p
Up == {w \in Workers : proc[Of(w)].st = "up"}
Settled == ~held /\ Up = Workers /\ \A p \in Procs : Live(p) => proc[p].gen = gen
Seq0(S, f) == LET RECURSIVE T(_, _)
                  T(x, a) == IF x = {} THEN a ELSE LET m == CHOOSE y \in x : \A z \in x : y <= z IN T(x \ {m}, Append(a, m))
              IN T(S, f)
Order(S) == Seq0(S, <<>>)

Init == /\ proc = [p \in {w + 1 : w \in Workers} |-> [gen |-> 0, w |-> p - 1, slot |-> p - 1, st |-> "up", n |-> 0]]
        /\ gen = 0
        /\ table = <<[w \in Workers |-> w]>>
        /\ at = [s \in Slots |-> IF s \in Workers THEN s + 1 ELSE 0]
        /\ held = FALSE
        /\ nops = 0 /\ log = <<>>

Emit(e) == /\ nops' = nops + 1
           /\ IF Gen THEN log' = Append(log, e @@ [all |-> {<<proc'[p].slot, proc'[p].w, proc'[p].n>> : p \in {x \in DOMAIN proc' : proc'[x].st = "up"}}]) ELSE UNCHANGED log

(* the process a request to the addresses of a slot reaches, 0: nobody       *)
To(s) == IF s \notin Slots THEN 0 ELSE IF at[s] # 0 /\ Live(at[s]) THEN at[s] ELSE 0
Serve(S) == [p \in Procs |-> IF p \in S THEN [proc[p] EXCEPT !.n = @ + 1] ELSE proc[p]]
Who(p) == IF p = 0 THEN [w |-> -1, slot |-> -1, n |-> 0] ELSE [w |-> proc[p].w, slot |-> proc[p].slot, n |-> proc[p].n + 1]

(* a request to an address of a slot                                         *)
Direct(s) == LET p == To(s) IN
  /\ proc' = Serve({p} \ {0})
  /\ UNCHANGED <<gen, table, at, held>>
  /\ Emit([a |-> "direct", s |-> s, by |-> Who(p)])

(* a request which process o is given and relays to worker w: it asks the
   table of its own generation; asking for itself it serves it               *)
Target(o, w) == LET s == table[proc[o].gen + 1][w] IN IF s = -1 THEN 0 ELSE To(s)
Relay(o, w) == LET p == Target(o, w) IN
  /\ Live(o) /\ at[proc[o].slot] = o
  /\ proc' = Serve({p} \ {0})
  /\ UNCHANGED <<gen, table, at, held>>
  /\ Emit([a |-> "relay", s |-> proc[o].slot, w |-> w, by |-> Who(p), via |-> p # o])

Reached(o) == {Target(o, w) : w \in Workers} \ {0}
Broadcast(o) == LET to == Reached(o) IN
  /\ Live(o) /\ at[proc[o].slot] = o
  /\ proc' = Serve(to)
  /\ UNCHANGED <<gen, table, at, held>>
  /\ Emit([a |-> "broadcast", s |-> proc[o].slot, by |-> LET q == Order({proc[p].w : p \in to}) IN
             [i \in DOMAIN q |-> Who(CHOOSE p \in to : proc[p].w = q[i])]])

(* many at once: k broadcasts from each live worker and a relay from every
   one to every other                                                        *)
Burst(k) ==
  /\ Up # {} /\ \A w \in Up : at[proc[Of(w)].slot] = Of(w)
  /\ LET add(p) == IF Live(p) /\ proc[p].gen = gen THEN Cardinality(Up) * (k + 1) ELSE 0
     IN proc' = [p \in Procs |-> [proc[p] EXCEPT !.n = @ + add(p)]]
  /\ UNCHANGED <<gen, table, at, held>>
  /\ Emit([a |-> "burst", k |-> k, up |-> Order(Up), slots |-> [i \in 1..Cardinality(Up) |-> proc[Of(Order(Up)[i])].slot],
           n |-> [i \in 1..Cardinality(Up) |-> proc'[Of(Order(Up)[i])].n]])

(* the end of a process: killed, its table entry stays; exiting, it is
   taken back unless somebody else has taken it                              *)
Free(p) == [at EXCEPT ![proc[p].slot] = IF @ = p THEN 0 ELSE @]
Clear(p) == [table EXCEPT ![proc[p].gen + 1][proc[p].w] = IF @ = proc[p].slot THEN -1 ELSE @]
Hold == /\ ~held /\ held' = TRUE
        /\ UNCHANGED <<proc, gen, table, at>>
        /\ Emit([a |-> "hold"])
Kill(w) == LET p == Of(w) IN
  /\ held /\ proc[p].st = "up"
  /\ proc' = [proc EXCEPT ![p].st = "dead"]
  /\ at' = Free(p) /\ UNCHANGED <<gen, table, held>>
  /\ Emit([a |-> "kill", s |-> proc[p].slot])
Exit(w, how) == LET p == Of(w) IN
  /\ held /\ proc[p].st = "up"
  /\ proc' = [proc EXCEPT ![p].st = "gone"]
  /\ at' = Free(p) /\ table' = Clear(p) /\ UNCHANGED <<gen, held>>
  /\ Emit([a |-> how, s |-> proc[p].slot])

(* the master respawns what has ended, in the same slot                      *)
Respawn ==
  /\ held /\ held' = FALSE
  /\ LET gone == Workers \ Up
         id == Cardinality(Procs)
         ord == Order(gone)
         new == [p \in (id + 1)..(id + Cardinality(gone)) |-> [gen |-> gen, w |-> ord[p - id], slot |-> proc[Of(ord[p - id])].slot, st |-> "up", n |-> 0]]
     IN /\ id + Cardinality(gone) <= MaxProc
        /\ proc' = proc @@ new
        /\ at' = [s \in Slots |-> IF \E p \in DOMAIN new : new[p].slot = s THEN CHOOSE p \in DOMAIN new : new[p].slot = s ELSE at[s]]
        /\ table' = [table EXCEPT ![gen + 1] = [w \in Workers |-> IF w \in gone THEN proc[Of(w)].slot ELSE @[w]]]
        /\ UNCHANGED gen
        /\ Emit([a |-> "respawn", up |-> ord])

(* a reload: every worker gets a successor in the lowest slot which is free,
   then the old ones finish                                                  *)
Reload ==
  /\ Settled
  /\ LET free == {s \in Slots : \A p \in Procs : Live(p) => proc[p].slot # s}
         id == Cardinality(Procs)
         ord == Order(Workers)
         q == Order(free)
     IN /\ Cardinality(free) >= Cardinality(Workers) /\ id + Cardinality(Workers) <= MaxProc
        /\ LET new == [p \in (id + 1)..(id + Cardinality(Workers)) |-> [gen |-> gen + 1, w |-> ord[p - id], slot |-> q[p - id], st |-> "up", n |-> 0]]
           IN /\ proc' = [p \in Procs |-> IF Live(p) THEN [proc[p] EXCEPT !.st = "quit"] ELSE proc[p]] @@ new
              /\ at' = [s \in Slots |-> IF \E p \in DOMAIN new : new[p].slot = s THEN CHOOSE p \in DOMAIN new : new[p].slot = s ELSE at[s]]
              /\ table' = Append(table, [w \in Workers |-> q[w + 1]])
        /\ gen' = gen + 1 /\ UNCHANGED held
        /\ Emit([a |-> "reload", slots |-> [i \in 1..Cardinality(Workers) |-> q[i]]])
Finish(p) ==
  /\ proc[p].st = "quit" /\ ~Gen
  /\ proc' = [proc EXCEPT ![p].st = "gone"]
  /\ at' = Free(p) /\ table' = Clear(p)
  /\ UNCHANGED <<gen, held>> /\ nops' = nops /\ UNCHANGED log
(* in generated behaviours all of them finish at once                        *)
FinishAll ==
  /\ Gen /\ \E p \in Procs : proc[p].st = "quit"
  /\ LET q == {p \in Procs : proc[p].st = "quit"}
     IN /\ proc' = [p \in Procs |-> IF p \in q THEN [proc[p] EXCEPT !.st = "gone"] ELSE proc[p]]
        /\ at' = [s \in Slots |-> IF at[s] \in q THEN 0 ELSE at[s]]
        /\ table' = [g \in DOMAIN table |-> IF g = gen + 1 THEN table[g] ELSE [w \in Workers |-> -1]]
  /\ UNCHANGED <<gen, held, log>> /\ nops' = nops + 1

Next == nops < MaxOps /\
   \/ \E s \in Slots : Direct(s)
   \/ \E o \in Procs : Broadcast(o) \/ \E w \in Workers : Relay(o, w)
   \/ Burst(1)
   \/ Hold \/ Respawn \/ Reload
   \/ \E w \in Workers : Kill(w) \/ Exit(w, "term") \/ Exit(w, "quit")
   \/ \E p \in Procs : Finish(p)
Spec == Init /\ [][Next]_vars

(* ---- what is relied on ------------------------------------------------- *)
(* no two processes share an address, and a worker which is up answers on it *)
Addresses == /\ \A p, q \in Procs : Live(p) /\ Live(q) /\ p # q => proc[p].slot # proc[q].slot
             /\ \A p \in Procs : Live(p) => at[proc[p].slot] = p
             /\ \A s \in Slots : at[s] # 0 => Live(at[s]) /\ proc[at[s]].slot = s
(* the table of a generation names the slot of each of its live workers      *)
Table == \A p \in Procs : Live(p) => table[proc[p].gen + 1][proc[p].w] = proc[p].slot
(* a relayed request reaches the worker meant of the same generation, and it
   reaches it whenever it lives; a broadcast reaches all that live           *)
Meant == \A o \in Procs : Live(o) =>
   /\ \A w \in Workers : LET t == Target(o, w) IN
        /\ t # 0 => proc[t].w = w /\ proc[t].gen = proc[o].gen
        /\ (\E p \in Procs : Live(p) /\ proc[p].w = w /\ proc[p].gen = proc[o].gen) => t # 0
   /\ Reached(o) = {p \in Procs : Live(p) /\ proc[p].gen = proc[o].gen}
(* nobody is served who was not asked                                        *)
Once == [][\A p \in Procs : proc'[p].n - proc[p].n \in 0..(2 * Cardinality(Workers))]_proc

(* ---- generation -------------------------------------------------------- *)
Pick(S) == RandomElement(S)
GenNext ==
  LET k == Pick(1..(100 + 0 * nops))
      o == {p \in Procs : Live(p) /\ proc[p].gen = gen}
  IN IF nops >= MaxOps THEN UNCHANGED vars
     ELSE IF \E p \in Procs : proc[p].st = "quit" THEN FinishAll
     ELSE IF o = {} THEN Respawn
     ELSE \E kk \in {k} :
          IF kk <= 15 THEN \E s \in {Pick(IF nops >= 0 THEN Slots ELSE {})} : Direct(s)
          ELSE IF kk <= 50 THEN \E x \in {Pick(o)} : \E w \in {Pick(IF nops >= 0 THEN Workers ELSE {})} : Relay(x, w)
          ELSE IF kk <= 72 THEN \E x \in {Pick(o)} : Broadcast(x)
          ELSE IF kk <= 78 THEN Burst(2)
          ELSE IF kk <= 84 /\ ~held THEN (IF Cardinality(Procs) + Cardinality(Workers) <= MaxProc THEN Hold ELSE Burst(1))
          ELSE IF kk <= 88 /\ Settled THEN (IF Cardinality(Procs) + Cardinality(Workers) <= MaxProc /\ Cardinality(Slots) >= 2 * Cardinality(Workers) THEN Reload ELSE Burst(1))
          ELSE IF held /\ kk <= 95 THEN (IF Up = {} THEN Respawn ELSE \E w \in {Pick(Up)} : \E h \in {Pick(IF nops >= 0 THEN 1..3 ELSE {})} :
                    IF h = 1 THEN Kill(w) ELSE Exit(w, IF h = 2 THEN "term" ELSE "quit"))
          ELSE IF held THEN Respawn
          ELSE \E x \in {Pick(o)} : Broadcast(x)
=============================================================================
