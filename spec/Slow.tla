-------------------------------- MODULE Slow --------------------------------
(***************************************************************************)
(* Slow players (ngx_rtmp_send_message and ngx_rtmp_send in                *)
(* ngx_rtmp_handler.c, ngx_rtmp_live_av in ngx_rtmp_live_module.c, without *)
(* a GOP cache).  Every player has a bounded queue; messages leave it in   *)
(* batches, a batch is replaced when the player's socket took all of it.   *)
(* The frames of the publisher are larger than what a socket holds, so     *)
(* that a player which stops reading blocks at a known place.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Players, FlvP,
          Q,         \* out_queue
          M,         \* merge_frame
          Buf, Cork, \* buffer (off: FALSE), out_cork
          Sync,      \* sync, 0: off
          WaitKey,
          Kinds,     \* subset of {"a","ah","k","i","vh","hh","m"}
          Steps, MaxFrames, MaxPubs,
          Mix,       \* generation: weighted kinds
          Gen

VARIABLES on,      \* the publisher is there
          npub, nf, ts,
          lat,     \* its latest codec headers [a, v] (frame or 0)
          pcs,     \* its last timestamp per kind, -1: none
          meta,    \* its metadata (frame or 0)
          sact,    \* the stream is active
          pl,      \* the players
          ghost,   \* what is needed to state the properties
          log

vars == <<on, npub, nf, ts, lat, pcs, meta, sact, pl, ghost, log>>

Zero == [a |-> 0, v |-> 0]
New == [live |-> FALSE, stall |-> FALSE, q |-> <<>>, inf |-> <<>>, act |-> FALSE, cs |-> [a |-> FALSE, v |-> FALSE],
        dr |-> Zero, mv |-> 0, kick |-> FALSE, dead |-> FALSE, out |-> <<>>, ev |-> {}]
G0 == [got |-> <<>>, slow |-> FALSE, ev |-> {}]

Init ==
  /\ on = FALSE /\ npub = 0 /\ nf = 0 /\ ts = 0 /\ lat = Zero /\ pcs = [a |-> -1, v |-> -1] /\ meta = 0 /\ sact = FALSE
  /\ pl = [p \in Players |-> New] /\ ghost = [p \in Players |-> G0] /\ log = <<>>

Cls(k) == IF k \in {"k", "i", "vh", "hh"} THEN "v" ELSE "a"
Prio(k) == CASE k = "k" -> 1 [] k = "hh" -> 1 [] k = "i" -> 2 [] OTHER -> 0
Mandatory(k) == k \in {"ah", "vh"}
Big(t) == t.k \in {"a", "ah", "k", "i", "vh", "hh"}
Tok(k, f, t) == [k |-> k, f |-> f, ts |-> t]
MinN(a, b) == IF a < b THEN a ELSE b

----------------------------------------------------------------------------
(* The queue.                                                              *)

OQ == INSTANCE OutQ
Fits(y, prio) == OQ!Fits(y, prio)
Put(y, t, prio) == OQ!Put(y, t, prio)
Blocked(y) == OQ!Blocked(y)
Pump(p, y) == OQ!Pump(p, y)
Drain(p, y) == OQ!Drain(p, y)
Take(p, y, n) == OQ!Take(p, y, n)

Settle(p, y) == \* at the end of a step
  IF y.dead THEN [New EXCEPT !.dead = TRUE, !.out = y.inf]
  ELSE IF y.kick /\ ~Blocked(y) THEN (IF y.stall THEN Pump(p, [y EXCEPT !.kick = FALSE]) ELSE Drain(p, [y EXCEPT !.kick = FALSE]))
  ELSE [y EXCEPT !.kick = FALSE]

----------------------------------------------------------------------------
(* A player's status and frames.                                           *)

Status(y, active) ==
  IF y.act = active THEN y
  ELSE LET z == [y EXCEPT !.act = active]
       IN IF ~Fits(z, 0) THEN [z EXCEPT !.dead = TRUE]
          ELSE [Put(z, Tok(IF active THEN "Begin" ELSE "Eof", 0, 0), 0) EXCEPT !.cs = [a |-> FALSE, v |-> FALSE], !.dr = Zero]

\* f: the frame, lt: the timestamp of the publisher's frame before it, h: its header
Av(y0, f, lt, h, mt) ==
  LET c == Cls(f.k)
      y1 == IF mt # 0 /\ y0.mv # mt /\ Fits(y0, 0) THEN [Put(y0, Tok("m", mt, 0), 0) EXCEPT !.mv = mt] ELSE y0
      y2 == IF y1.cs[c] /\ Sync > 0 /\ y1.dr[c] > Sync THEN [y1 EXCEPT !.cs[c] = FALSE, !.dr[c] = 0] ELSE y1
      skip == ~y2.cs[c] /\ (Mandatory(f.k) \/ (WaitKey /\ c = "v" /\ Prio(f.k) # 1))
      stuck == ~y2.cs[c] /\ h # 0 /\ ~Fits(y2, 0)
      y3 == IF y2.cs[c] THEN y2
            ELSE [(IF h = 0 THEN y2 ELSE Put(y2, Tok(IF c = "a" THEN "ah" ELSE "vh", h, lt), 0)) EXCEPT !.cs[c] = TRUE]
  IN IF skip \/ stuck THEN y2
     ELSE LET e == IF Gen THEN {} ELSE {[p |-> Prio(f.k), n |-> Len(y3.q), ok |-> Fits(y3, Prio(f.k))]}
          IN IF Fits(y3, Prio(f.k)) THEN Put([y3 EXCEPT !.ev = e], Tok(f.k, f.f, f.ts), Prio(f.k))
             ELSE [y3 EXCEPT !.dr[c] = @ + f.ts - lt, !.dead = Mandatory(f.k), !.ev = e]

Note(p, y) == [ghost[p] EXCEPT !.got = @ \o y.out, !.slow = @ \/ y.stall, !.ev = @ \cup y.ev]

Deliver(Y) ==
  /\ pl' = [p \in Players |-> [Y[p] EXCEPT !.out = <<>>, !.dead = FALSE]]
  /\ ghost' = [p \in Players |-> IF ~Y[p].live THEN G0 ELSE [ghost[p] EXCEPT !.got = @ \o Y[p].out, !.slow = @ \/ Y[p].stall]]
Ev(a, s, k, f, t) == [a |-> a, s |-> s, k |-> k, f |-> f, t |-> t]
Emit(e, Y) ==
  IF Gen THEN log' = Append(log, e @@ [out |-> [p \in Players |-> Y[p].out], dead |-> {p \in Players : Y[p].dead},
                                       held |-> [p \in Players |-> Len(Y[p].q)]])
         ELSE UNCHANGED log

----------------------------------------------------------------------------
Publish ==
  /\ ~on /\ npub < MaxPubs /\ npub' = npub + 1 /\ on' = TRUE
  /\ lat' = Zero /\ pcs' = [a |-> -1, v |-> -1] /\ meta' = 0 /\ ts' = 0
  /\ UNCHANGED <<nf, sact, pl, ghost>> /\ Emit(Ev("publish", 0, "", 0, 0), pl)

Unpublish ==
  /\ on /\ on' = FALSE /\ sact' = FALSE
  /\ LET Y == [p \in Players |-> IF pl[p].live THEN Settle(p, Status(pl[p], FALSE)) ELSE pl[p]]
     IN Deliver(Y) /\ Emit(Ev("unpublish", 0, "", 0, 0), Y)
  /\ UNCHANGED <<npub, nf, ts, lat, pcs, meta>>

Frame(k, d) ==
  /\ on /\ nf < MaxFrames /\ nf' = nf + 1
  /\ IF k = "m"
     THEN /\ meta' = nf + 1 /\ UNCHANGED <<ts, lat, pcs, sact, pl, ghost>>
          /\ Emit(Ev("frame", 0, k, nf + 1, ts), pl)
     ELSE LET f == [k |-> k, f |-> nf + 1, ts |-> ts + d]
              c == Cls(k)
              lt == IF pcs[c] < 0 THEN f.ts ELSE pcs[c]
              h == IF k \in {"ah", "vh", "hh"} THEN nf + 1 ELSE lat[c]
              Y == [p \in Players |->
                     IF ~pl[p].live THEN pl[p]
                     ELSE LET y == IF sact THEN pl[p] ELSE Status(pl[p], TRUE)
                          IN Settle(p, IF y.dead THEN y ELSE Av(y, f, lt, h, meta))]
          IN /\ ts' = f.ts /\ lat' = [lat EXCEPT ![c] = h] /\ pcs' = [pcs EXCEPT ![c] = f.ts] /\ sact' = TRUE
             /\ UNCHANGED meta
             /\ pl' = [p \in Players |-> [Y[p] EXCEPT !.out = <<>>, !.dead = FALSE, !.ev = {}]]
             /\ ghost' = [p \in Players |-> IF ~Y[p].live THEN G0 ELSE Note(p, Y[p])]
             /\ Emit(Ev("frame", 0, k, nf + 1, f.ts), Y)
  /\ UNCHANGED <<on, npub>>

Play(p) ==
  /\ ~pl[p].live
  /\ LET y == Settle(p, IF sact THEN Status([New EXCEPT !.live = TRUE], TRUE) ELSE [New EXCEPT !.live = TRUE])
         Y == [pl EXCEPT ![p] = y]
     IN Deliver(Y) /\ Emit(Ev("play", p, "", 0, 0), Y)
  /\ UNCHANGED <<on, npub, nf, ts, lat, pcs, meta, sact>>

Leave(p) ==
  /\ pl[p].live
  /\ LET Y == [pl EXCEPT ![p] = New] IN Deliver(Y) /\ Emit(Ev("leave", p, "", 0, 0), Y)
  /\ UNCHANGED <<on, npub, nf, ts, lat, pcs, meta, sact>>

\* stops reading
Stall(p) ==
  /\ pl[p].live /\ ~pl[p].stall
  /\ LET Y == [pl EXCEPT ![p].stall = TRUE] IN Deliver(Y) /\ Emit(Ev("stall", p, "", 0, 0), Y)
  /\ UNCHANGED <<on, npub, nf, ts, lat, pcs, meta, sact>>

\* reads n large messages
Read(p, n) ==
  /\ pl[p].live /\ Blocked(pl[p])
  /\ LET Y == [pl EXCEPT ![p] = Pump(p, Take(p, pl[p], n))] IN Deliver(Y) /\ Emit(Ev("read", p, "", n, 0), Y)
  /\ UNCHANGED <<on, npub, nf, ts, lat, pcs, meta, sact>>

\* reads on
Resume(p) ==
  /\ pl[p].live /\ pl[p].stall
  /\ LET y == [pl[p] EXCEPT !.stall = FALSE]
         z == IF Blocked(pl[p]) THEN Drain(p, y) ELSE [y EXCEPT !.out = y.inf, !.inf = <<>>]
         Y == [pl EXCEPT ![p] = z]
     IN Deliver(Y) /\ Emit(Ev("resume", p, "", 0, 0), Y)
  /\ UNCHANGED <<on, npub, nf, ts, lat, pcs, meta, sact>>

Next ==
  \/ Publish \/ Unpublish
  \/ \E k \in Kinds, d \in Steps : Frame(k, d)
  \/ \E p \in Players : Play(p) \/ Leave(p) \/ Stall(p) \/ Resume(p) \/ \E n \in 1..2 : Read(p, n)

Spec == Init /\ [][Next]_vars

Pick == Mix[RandomElement({x \in 1..Len(Mix) : nf >= 0})]
R(S) == {RandomElement({x \in S : nf >= 0})}
GenNext ==
  LET r == RandomElement({x \in 1..100 : nf >= 0})
      live == {p \in Players : pl[p].live}
      stalled == {p \in live : pl[p].stall}
      blocked == {p \in live : Blocked(pl[p])}
  IN IF ~on THEN Publish
     ELSE IF live = {} THEN \E p \in R(Players) : Play(p)
     ELSE IF r <= 66 THEN \E k \in {Pick}, d \in R(Steps) : Frame(k, d)
     ELSE IF r <= 72 /\ live # Players THEN \E p \in R(Players \ live) : Play(p)
     ELSE IF r <= 81 /\ live # stalled THEN \E p \in R(live \ stalled) : Stall(p)
     ELSE IF r <= 90 /\ blocked # {} THEN \E p \in R(blocked), n \in R(1..5) : Read(p, n)
     ELSE IF r <= 94 /\ stalled # {} THEN \E p \in R(stalled) : Resume(p)
     ELSE IF r <= 96 THEN \E p \in R(live) : Leave(p)
     ELSE IF r <= 97 THEN Unpublish
     ELSE \E k \in {Pick}, d \in R(Steps) : Frame(k, d)

----------------------------------------------------------------------------
(* Properties.                                                             *)
Whole(p) == ghost[p].got \o pl[p].inf \o pl[p].q   \* everything given to a player
IsAv(t) == t.k \in {"a", "k", "i"}

\* what a player receives is a subsequence of what was published
Subsequence == \A p \in Players : LET s == SelectSeq(Whole(p), IsAv) IN \A i \in 1..Len(s) - 1 : s[i].f < s[i + 1].f
Bounded == \A p \in Players : Len(pl[p].q) < Q /\ Cardinality({i \in 1..Len(pl[p].inf) : Big(pl[p].inf[i])}) <= M
\* a frame is only dropped when any less important one would be
Importance == \A p \in Players : \A x, y \in ghost[p].ev : ~(~x.ok /\ y.ok /\ x.n <= y.n /\ x.p <= y.p)
\* a player which always read loses nothing and waits for nothing
Isolated == \A p \in Players : (pl[p].live /\ ~ghost[p].slow) =>
  /\ \A x \in ghost[p].ev : x.ok
  /\ pl[p].inf = <<>> /\ (Buf \/ pl[p].q = <<>>)
\* the codec header in force comes before a frame
RECURSIVE HdrIn(_, _, _)
HdrIn(s, c, h) == IF s = <<>> THEN h ELSE HdrIn(Tail(s), c, IF Head(s).k = c THEN Head(s).f ELSE h)
Headers == \A p \in Players : (on /\ pl[p].live /\ "hh" \notin Kinds /\ npub = 1) =>
  /\ pl[p].cs.a => HdrIn(Whole(p), "ah", 0) = lat.a
  /\ pl[p].cs.v => HdrIn(Whole(p), "vh", 0) = lat.v
=============================================================================
