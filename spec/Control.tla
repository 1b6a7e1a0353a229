------------------------------ MODULE Control ------------------------------
(***************************************************************************)
(* Control requests: which of the joined sessions a drop, pause or resume  *)
(* request means, what it answers and what the others notice of it.        *)
(*                                                                         *)
(* A stream is <<service id, application, name>>.  A request names a       *)
(* service id and any of application, name, client address and client id   *)
(* and a role; Meant is the declarative selection.  ImplMeant is the walk  *)
(* of ngx_rtmp_control_module over the registry.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slots, FlvSlots, Srvs, Apps, Names, Addrs, Pris,
          Kick,          \* applications whose players leave with a publisher
          MaxOps, Gen
VARIABLES role,          \* idle, pub, dup (refused publisher), play
          at,            \* the stream
          addr, pri,
          ps,            \* 0 runs, 1 paused, 2 resumed: waits for a key frame
          vid,           \* publisher sent video
          nops, log
vars == <<role, at, addr, pri, ps, vid, nops, log>>
View == <<role, at, addr, pri, ps, vid>>

Streams == Srvs \X Apps \X Names
NoAt == <<0, 0, 0>>
Init == /\ role = [s \in Slots |-> "idle"] /\ at = [s \in Slots |-> NoAt] /\ addr = [s \in Slots |-> 0]
        /\ pri = [s \in Slots |-> 0] /\ ps = [s \in Slots |-> 0] /\ vid = [s \in Slots |-> FALSE]
        /\ nops = 0 /\ log = <<>>

Joined == {s \in Slots : role[s] # "idle"}
On(k) == {s \in Joined : at[s] = k}
Pubs(k) == {s \in On(k) : role[s] = "pub"}
Players(k) == {s \in On(k) : role[s] = "play"}
Top(s) == role[s] = "pub" /\ \A q \in Pubs(at[s]) : pri[q] <= pri[s]

Reg == [s \in Slots |-> role'[s]]
Emit(e) == /\ nops' = nops + 1
           /\ IF Gen THEN log' = Append(log, e @@ [reg |-> Reg]) ELSE UNCHANGED log

Publish(s, k, a, p) ==
  /\ s \notin FlvSlots /\ role[s] = "idle"
  /\ LET dup == \E q \in Pubs(k) : pri[q] = p
     IN /\ role' = [role EXCEPT ![s] = IF dup THEN "dup" ELSE "pub"]
        /\ at' = [at EXCEPT ![s] = k] /\ addr' = [addr EXCEPT ![s] = a] /\ pri' = [pri EXCEPT ![s] = p]
        /\ ps' = [ps EXCEPT ![s] = 0] /\ vid' = [vid EXCEPT ![s] = FALSE]
        /\ Emit([a |-> "publish", s |-> s, k |-> k, addr |-> a, pri |-> p, ok |-> ~dup])

Play(s, k, a) ==
  /\ role[s] = "idle" /\ (k[2] \in Kick => Pubs(k) # {})
  /\ role' = [role EXCEPT ![s] = "play"] /\ at' = [at EXCEPT ![s] = k] /\ addr' = [addr EXCEPT ![s] = a]
  /\ ps' = [ps EXCEPT ![s] = 0] /\ UNCHANGED <<pri, vid>>
  /\ Emit([a |-> "play", s |-> s, k |-> k, addr |-> a])

(* the sessions which end when those of d do                                *)
Ends(d) == d \cup {q \in Joined : role[q] = "play" /\ at[q][2] \in Kick /\ \E s \in d : role[s] = "pub" /\ at[s] = at[q]}
Away(d) == /\ role' = [s \in Slots |-> IF s \in d THEN "idle" ELSE role[s]]
           /\ at' = [s \in Slots |-> IF s \in d THEN NoAt ELSE at[s]]
           /\ addr' = [s \in Slots |-> IF s \in d THEN 0 ELSE addr[s]]
           /\ pri' = [s \in Slots |-> IF s \in d THEN 0 ELSE pri[s]]
           /\ ps' = [s \in Slots |-> IF s \in d THEN 0 ELSE ps[s]]
           /\ vid' = [s \in Slots |-> IF s \in d THEN FALSE ELSE vid[s]]

Leave(s) ==
  /\ role[s] # "idle"
  /\ LET d == Ends({s}) IN Away(d) /\ Emit([a |-> "leave", s |-> s, out |-> d \ {s}])

Frame(s, f) ==
  /\ role[s] \in {"pub", "dup"}
  /\ LET v == vid[s] \/ f \in {"k", "i"}
         wake == ps[s] = 2 /\ (f = "k" \/ ~v)
         runs == ps[s] = 0 \/ wake
     IN /\ vid' = IF role[s] = "pub" THEN [vid EXCEPT ![s] = v] ELSE vid
        /\ ps' = IF wake THEN [ps EXCEPT ![s] = 0] ELSE ps
        /\ UNCHANGED <<role, at, addr, pri>>
        /\ Emit([a |-> "frame", s |-> s, f |-> f, to |-> IF runs /\ Top(s) THEN Players(at[s]) ELSE {}])

(* a request: srv 0 is an unknown service id, app, name, addr 0: not given,  *)
(* cid: a slot, 0: not given, -1: a number nobody has                        *)
Reqs == [srv : Srvs \cup {0}, app : Apps \cup {0}, name : Names \cup {0}, addr : Addrs \cup {0}, cid : Slots \cup {0, -1},
         role : {"publisher", "subscriber", "client"}]
IsPub(s) == role[s] \in {"pub", "dup"}
Meant(r) == {s \in Joined : /\ at[s][1] = r.srv
                            /\ r.app = 0 \/ at[s][2] = r.app
                            /\ r.name = 0 \/ at[s][3] = r.name
                            /\ r.addr = 0 \/ addr[s] = r.addr
                            /\ r.cid = 0 \/ s = r.cid
                            /\ r.role = "publisher" => IsPub(s)
                            /\ r.role = "subscriber" => ~IsPub(s)}

(* the walk: streams of the server, then their players and publishers        *)
ImplStreams(r) == IF r.srv \notin {at[s][1] : s \in Joined} THEN {}
                  ELSE IF r.app # 0 /\ r.name # 0 THEN {k \in {<<r.srv, r.app, r.name>>} : On(k) # {}}
                  ELSE {k \in {at[s] : s \in Joined} : k[1] = r.srv /\ (r.app = 0 \/ k[2] = r.app) /\ (r.name = 0 \/ k[3] = r.name)}
ImplSession(r, s) == /\ r.addr = 0 \/ addr[s] = r.addr
                     /\ r.cid = 0 \/ s = r.cid
                     /\ CASE r.role = "publisher" -> IsPub(s) [] r.role = "subscriber" -> ~IsPub(s) [] OTHER -> TRUE
ImplMeant(r) == UNION {{s \in On(k) : ImplSession(r, s)} : k \in ImplStreams(r)}

Control(sec, r) ==
  LET m == Meant(r)
      e == [a |-> "control", sec |-> sec, req |-> r, count |-> Cardinality(m)]
  IN CASE sec = "drop" -> /\ Away(Ends(m)) /\ Emit(e @@ [out |-> Ends(m)])
       [] sec = "pause" -> /\ ps' = [s \in Slots |-> IF s \in m /\ IsPub(s) THEN 1 ELSE ps[s]]
                           /\ UNCHANGED <<role, at, addr, pri, vid>> /\ Emit(e @@ [out |-> {}])
       [] OTHER -> /\ ps' = [s \in Slots |-> IF s \in m /\ IsPub(s) /\ ps[s] = 1 THEN 2 ELSE ps[s]]
                   /\ UNCHANGED <<role, at, addr, pri, vid>> /\ Emit(e @@ [out |-> {}])

(* requests without a service id, with an unknown role or which the location *)
(* does not allow are refused and do nothing                                 *)
Refused(how, sec, r) ==
  /\ UNCHANGED <<role, at, addr, pri, ps, vid>>
  /\ Emit([a |-> "refused", how |-> how, sec |-> sec, req |-> r, out |-> {}])

Secs == {"drop", "pause", "resume"}
Next == /\ nops < MaxOps
        /\ \/ \E s \in Slots, k \in Streams, a \in Addrs, p \in Pris : Publish(s, k, a, p)
           \/ \E s \in Slots, k \in Streams, a \in Addrs : Play(s, k, a)
           \/ \E s \in Slots : Leave(s)
           \/ \E s \in Slots, f \in {"k", "i", "a"} : Frame(s, f)
           \/ \E sec \in Secs, r \in Reqs : Control(sec, r)
Spec == Init /\ [][Next]_vars

Rnd(S) == RandomElement({x \in S : nops >= 0})
Mostly(S, d) == IF Rnd(1..3) = 1 THEN Rnd(S) ELSE d
GenReq(s) == LET k == at[s]     \* a request around session s
             IN [srv |-> IF Rnd(1..12) = 1 THEN Rnd(Srvs \cup {0}) ELSE k[1], app |-> IF Rnd(1..2) = 1 THEN 0 ELSE Mostly(Apps, k[2]),
                 name |-> IF Rnd(1..2) = 1 THEN 0 ELSE Mostly(Names, k[3]), addr |-> IF Rnd(1..3) # 1 THEN 0 ELSE Mostly(Addrs, addr[s]),
                 cid |-> IF Rnd(1..4) # 1 THEN 0 ELSE Mostly({-1} \cup {q \in Joined : role[q] # "dup"}, IF role[s] = "dup" THEN -1 ELSE s),
                 role |-> Rnd({"publisher", "subscriber", "client"})]
Busy == {k \in Streams : On(k) # {}}
Where == IF Busy = {} \/ Rnd(1..3) = 1 THEN Rnd(Streams) ELSE Rnd(Busy)
GenNext ==
  \/ \E s \in Slots : role[s] = "idle" /\ Publish(s, Where, Rnd(Addrs), Rnd(Pris))
  \/ \E s \in Slots : role[s] = "idle" /\ LET k == Where IN Play(s, k, Rnd(Addrs))
  \/ \E s \in Slots : nops % 5 = 0 /\ Leave(s)
  \/ \E s \in Slots, f \in {"k", "i", "a"} : Frame(s, f)
  \/ \E s \in Slots, f \in {"k", "i"} : ps[s] # 0 /\ Frame(s, f)
  \/ \E s \in Joined, sec \in Secs : Cardinality(Joined) > 3 /\ (sec # "drop" \/ nops % 3 = 0) /\ Control(sec, GenReq(s))
  \/ \E s \in Joined, how \in {"nosrv", "badrole", "notallowed", "section"}, sec \in Secs : nops % 9 = 1 /\ Refused(how, sec, GenReq(s))
-----------------------------------------------------------------------------
Exact == \A r \in Reqs : ImplMeant(r) = Meant(r)
UniquePri == \A a, b \in Slots : role[a] = "pub" /\ role[b] = "pub" /\ at[a] = at[b] /\ a # b => pri[a] # pri[b]
OnlyPubs == \A s \in Slots : ps[s] # 0 => IsPub(s)
(* whoever leaves the registry was meant, or left with its publisher          *)
Undisturbed == [][\A r \in Reqs, sec \in Secs : Control(sec, r) =>
                    \A s \in Slots : role'[s] # role[s] => sec = "drop" /\ (s \in Meant(r) \/ at[s][2] \in Kick)]_vars
==============================================================================
