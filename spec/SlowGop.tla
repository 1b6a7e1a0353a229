------------------------------ MODULE SlowGop ------------------------------
(***************************************************************************)
(* Slow players of a stream with a GOP cache: Gop.tla, with the queues of  *)
(* OutQ.tla behind it.  A full queue makes a player fall behind in the     *)
(* cache instead of losing single frames.                                  *)
(***************************************************************************)
EXTENDS Gop

CONSTANTS M, MaxPubs

VARIABLES sact,     \* the stream is active
          pl,       \* player: [stall, inf, q, act]
          slow      \* ghost: player: ever stalled

OQ == INSTANCE OutQ WITH Buf <- FALSE, Cork <- 0
svars == <<vars, sact, pl, slow>>

P0 == [stall |-> FALSE, inf |-> <<>>, q |-> <<>>, act |-> FALSE]
InitS == Init /\ sact = FALSE /\ pl = [q \in Players |-> P0] /\ slow = [q \in Players |-> FALSE]

\* the player with its queue in out, as Gop wants it
Full(q) == [QState(q) EXCEPT !.out = pl[q].q] @@ [kick |-> FALSE, dead |-> FALSE, act |-> pl[q].act]
Fresh == [New EXCEPT !.out = <<>>] @@ [kick |-> FALSE, dead |-> FALSE, act |-> FALSE]

StatusS(y, active) ==
  IF y.act = active THEN y
  ELSE IF ~Room(y) THEN [y EXCEPT !.act = active, !.dead = TRUE]
  ELSE [y EXCEPT !.act = active, !.kick = TRUE, !.out = Append(@, [k |-> IF active THEN "Begin" ELSE "Eof", f |-> 0, ts |-> 0])]

Again(y) == [y |-> y, ok |-> FALSE]
Done(y) == [y |-> y, ok |-> TRUE]
\* one frame, or nothing to send
Link1(y, f) == IF f = None THEN Done(y) ELSE IF Room(y) THEN Done(Link(y, f)) ELSE Again(Link(y, f))
Meta1(p, y) ==
  IF y.mv = meta[p] THEN Done(y)
  ELSE IF meta[p] # 0 /\ ~Room(y) THEN Again(y)
  ELSE Done(Meta(p, y))
Two(y, a, v) == LET r == Link1(y, a) IN IF r.ok THEN Link1(r.y, v) ELSE r
NewHdr(y, h, c) == IF h[c].f # y.plat[c] THEN h[c] ELSE None
New2(y, h) == LET r == Link1(y, NewHdr(y, h, "a")) IN IF r.ok THEN Link1(r.y, NewHdr(r.y, h, "v")) ELSE r

RECURSIVE BringS(_, _)
BringS(x, y) ==
  IF y.pos >= x.b + Len(x.c) THEN [y EXCEPT !.st = 3, !.kick = TRUE]
  ELSE LET f == x.c[y.pos - x.b + 1]
       IN IF ~SendAll /\ Age(f, y.first) >= CT THEN [y EXCEPT !.st = 3, !.kick = TRUE]
          ELSE IF ~Room(y) THEN [Link(y, f) EXCEPT !.kick = TRUE]
          ELSE BringS(x, [Link(y, f) EXCEPT !.pos = @ + 1])

IsAvk(t) == t.k \in {"a", "ah", "k", "i", "vh"}
Cleared(y) == \* low latency: what is queued is thrown away
  LET had(k) == \E i \in 1..Len(y.out) : y.out[i].k = k
  IN [y EXCEPT !.out = SelectSeq(@, LAMBDA t : ~IsAvk(t)),
               !.plat = [a |-> IF had("ah") THEN 0 ELSE @.a, v |-> IF had("vh") THEN 0 ELSE @.v]]

SendS(p, x, y0) ==
  LET y == IF y0.src = inc[p] THEN y0
           ELSE [y0 EXCEPT !.src = inc[p], !.st = 0, !.pos = 0, !.plat = [a |-> 0, v |-> 0]]
      end == x.b + Len(x.c)
  IN IF y.st = 0
     THEN LET r == Meta1(p, y) IN IF r.ok THEN [r.y EXCEPT !.st = 1, !.kick = TRUE] ELSE r.y
     ELSE IF y.st = 1
     THEN IF x.c = <<>> \/ x.hl THEN [y EXCEPT !.pos = x.b]
          ELSE LET r == Two([y EXCEPT !.pos = x.b], x.h.a, x.h.v)
               IN IF ~r.ok THEN r.y ELSE BringS(x, [r.y EXCEPT !.st = 2, !.first = Head(x.c).ts])
     ELSE IF y.st = 2
     THEN IF y.pos >= x.b THEN BringS(x, y)
          ELSE IF x.hl THEN y
          ELSE LET r == New2(y, x.h) IN IF ~r.ok THEN r.y ELSE BringS(x, [r.y EXCEPT !.pos = x.b])
     ELSE LET chase == LowLat /\ x.c # <<>> /\ x.c[Len(x.c)].k = "k" /\ y.pos < end - 1
              z == IF chase THEN [Cleared(y) EXCEPT !.pos = end - 1] ELSE y
              m == Meta1(p, z)
              skip == ~chase /\ z.pos < x.b
              r == IF chase THEN New2(m.y, lat'[p])
                   ELSE IF ~skip THEN Done(m.y)
                   ELSE IF x.hl THEN Again(m.y)
                   ELSE LET n == New2(m.y, x.h) IN IF n.ok THEN Done([n.y EXCEPT !.pos = x.b]) ELSE n
              w == r.y
          IN IF ~m.ok THEN m.y
             ELSE IF ~r.ok THEN [w EXCEPT !.kick = @ \/ skip]
             ELSE IF w.pos >= end THEN [w EXCEPT !.kick = TRUE]
             ELSE LET l == Link1(w, x.c[w.pos - x.b + 1])
                  IN IF l.ok THEN [l.y EXCEPT !.pos = @ + 1, !.kick = TRUE] ELSE l.y

\* the queue after the step: [q, inf, out, ...]
Queue(q, y) == [q |-> y.out, inf |-> pl[q].inf, out |-> <<>>, stall |-> pl[q].stall, kick |-> y.kick]
Flushed(q, y) ==
  LET z == Queue(q, y)
  IN IF z.kick /\ ~OQ!Blocked(z) THEN (IF z.stall THEN OQ!Pump(q, z) ELSE OQ!Drain(q, z)) ELSE z

\* Y: the players (as Gop has them), Z: their queues
SetS(Y, Z, L) ==
  LET N == [q \in Players |-> IF q \notin L THEN Fresh ELSE Y[q]]
  IN /\ st' = [q \in Players |-> N[q].st] /\ src' = [q \in Players |-> N[q].src] /\ pos' = [q \in Players |-> N[q].pos]
     /\ first' = [q \in Players |-> N[q].first] /\ mv' = [q \in Players |-> N[q].mv] /\ plat' = [q \in Players |-> N[q].plat]
     /\ fx' = [q \in Players |-> N[q].fx] /\ UNCHANGED calm
     /\ live' = L
     /\ pl' = [q \in Players |-> IF q \notin L THEN P0 ELSE [stall |-> Z[q].stall, inf |-> Z[q].inf, q |-> Z[q].q, act |-> Y[q].act]]
     /\ got' = [q \in Players |-> IF q \notin L THEN <<>> ELSE got[q] \o Z[q].out]
     /\ slow' = [q \in Players |-> q \in L /\ (slow[q] \/ Z[q].stall)]
EmitS(e, Y, Z) ==
  IF Gen THEN log' = Append(log, e @@ [out |-> [q \in Players |-> IF Y[q].dead THEN pl[q].inf ELSE Z[q].out],
                                       dead |-> {q \in Players : Y[q].dead},
                                       held |-> [q \in Players |-> IF Y[q].dead THEN 0 ELSE Len(Z[q].q)]])
         ELSE UNCHANGED log
Step(e, Y, Z, L) == SetS(Y, Z, L \ {q \in Players : Y[q].dead}) /\ EmitS(e, Y, Z)
SameY == [q \in Players |-> Full(q)]
SameZ == [q \in Players |-> Queue(q, Full(q))]
Zof(Y) == [q \in Players |-> Flushed(q, Y[q])]
Frozen == UNCHANGED <<paused>>

----------------------------------------------------------------------------
PublishS(p) ==
  /\ p \notin on /\ on' = on \cup {p} /\ ninc < MaxPubs
  /\ cache' = [cache EXCEPT ![p] = <<>>] /\ base' = [base EXCEPT ![p] = 0] /\ has' = [has EXCEPT ![p] = FALSE]
  /\ hl' = [hl EXCEPT ![p] = FALSE] /\ hdr' = [hdr EXCEPT ![p] = NoHdr] /\ lat' = [lat EXCEPT ![p] = NoHdr]
  /\ meta' = [meta EXCEPT ![p] = 0] /\ ts' = [ts EXCEPT ![p] = T0] /\ all' = [all EXCEPT ![p] = <<>>]
  /\ ninc' = ninc + 1 /\ inc' = [inc EXCEPT ![p] = ninc + 1]
  /\ UNCHANGED <<nf, sact>> /\ Frozen /\ Step(Ev("publish", 0, "", 0, 0), SameY, SameZ, live)

UnpublishS(p) ==
  /\ p \in on /\ on' = on \ {p} /\ sact' = FALSE
  /\ cache' = [cache EXCEPT ![p] = <<>>] /\ base' = [base EXCEPT ![p] = 0] /\ has' = [has EXCEPT ![p] = FALSE]
  /\ hl' = [hl EXCEPT ![p] = FALSE] /\ hdr' = [hdr EXCEPT ![p] = NoHdr] /\ lat' = [lat EXCEPT ![p] = NoHdr]
  /\ UNCHANGED <<ninc, nf, meta, ts, inc, all>> /\ Frozen
  /\ LET Y == [q \in Players |-> IF q \in live THEN StatusS(Full(q), FALSE) ELSE Full(q)]
     IN Step(Ev("unpublish", 0, "", 0, 0), Y, Zof(Y), live)

FrameS(p, k, d) ==
  /\ p \in on /\ nf < MaxFrames /\ nf' = nf + 1
  /\ LET f == [f |-> nf + 1, k |-> k, ts |-> ts[p] + d]
         x == Put(PState(p), f)
     IN /\ ts' = [ts EXCEPT ![p] = f.ts]
        /\ IF k = "m"
           THEN /\ meta' = [meta EXCEPT ![p] = f.f]
                /\ UNCHANGED <<cache, base, has, hl, hdr, lat, all, sact>>
                /\ Step(Ev("frame", 0, k, f.f, f.ts), SameY, SameZ, live)
           ELSE /\ cache' = [cache EXCEPT ![p] = x.c] /\ base' = [base EXCEPT ![p] = x.b] /\ hl' = [hl EXCEPT ![p] = x.hl]
                /\ hdr' = [hdr EXCEPT ![p] = x.h] /\ has' = [has EXCEPT ![p] = TRUE]
                /\ lat' = [lat EXCEPT ![p] = IF IsHdr(f) THEN [@ EXCEPT ![Cls(f)] = f] ELSE @]
                /\ all' = [all EXCEPT ![p] = Append(@, [f |-> f.f, k |-> k, h |-> [a |-> lat'[p].a.f, v |-> lat'[p].v.f]])]
                /\ sact' = TRUE /\ UNCHANGED meta
                /\ LET Y == [q \in Players |->
                              IF q \notin live THEN Full(q)
                              ELSE LET y == IF sact THEN Full(q) ELSE StatusS(Full(q), TRUE)
                                   IN IF y.dead THEN y ELSE SendS(p, x, y)]
                   IN Step(Ev("frame", 0, k, f.f, f.ts), Y, Zof(Y), live)
  /\ UNCHANGED <<on, inc, ninc>> /\ Frozen

PlayS(q) ==
  /\ q \notin live
  /\ LET y0 == IF sact THEN StatusS(Fresh, TRUE) ELSE Fresh
         y == IF Top # 0 /\ has[Top] THEN [Meta(Top, y0) EXCEPT !.st = 1, !.src = inc[Top], !.kick = TRUE] ELSE y0
         Y == [SameY EXCEPT ![q] = y]
     IN Step(Ev("play", q, "", 0, 0), Y, [SameZ EXCEPT ![q] = Flushed(q, y)], live \cup {q})
  /\ UNCHANGED <<on, ninc, nf, pvars, sact>> /\ Frozen

LeaveS(q) ==
  /\ q \in live /\ Step(Ev("leave", q, "", 0, 0), SameY, [SameZ EXCEPT ![q] = Queue(q, Fresh)], live \ {q})
  /\ UNCHANGED <<on, ninc, nf, pvars, sact>> /\ Frozen

Stall(q) ==
  /\ q \in live /\ ~pl[q].stall
  /\ Step(Ev("stall", q, "", 0, 0), SameY, [SameZ EXCEPT ![q].stall = TRUE], live)
  /\ UNCHANGED <<on, ninc, nf, pvars, sact>> /\ Frozen

Read(q, n) ==
  /\ q \in live /\ OQ!Blocked(pl[q])
  /\ Step(Ev("read", q, "", n, 0), SameY, [SameZ EXCEPT ![q] = OQ!Pump(q, OQ!Take(q, @, n))], live)
  /\ UNCHANGED <<on, ninc, nf, pvars, sact>> /\ Frozen

Resume(q) ==
  /\ q \in live /\ pl[q].stall
  /\ LET z == [SameZ[q] EXCEPT !.stall = FALSE]
     IN Step(Ev("resume", q, "", 0, 0), SameY,
             [SameZ EXCEPT ![q] = IF OQ!Blocked(pl[q]) THEN OQ!Drain(q, z) ELSE [z EXCEPT !.out = z.inf, !.inf = <<>>]], live)
  /\ UNCHANGED <<on, ninc, nf, pvars, sact>> /\ Frozen

NextS ==
  \/ \E p \in Pubs : PublishS(p) \/ UnpublishS(p)
  \/ \E p \in Pubs, k \in Kinds, d \in Steps : FrameS(p, k, d)
  \/ \E q \in Players : PlayS(q) \/ LeaveS(q) \/ Stall(q) \/ Resume(q) \/ \E n \in 1..2 : Read(q, n)

SpecS == InitS /\ [][NextS]_svars

GenNextS ==
  LET r == RandomElement({x \in 1..100 : nf >= 0})
      stalled == {p \in live : pl[p].stall}
      blocked == {p \in live : OQ!Blocked(pl[p])}
  IN IF on = {} THEN \E p \in Pubs : PublishS(p)
     ELSE IF live = {} THEN \E p \in R(Players) : PlayS(p)
     ELSE IF r <= 66 THEN \E k \in {Pick}, d \in R(Steps) : FrameS(Top, k, d)
     ELSE IF r <= 72 /\ live # Players THEN \E p \in R(Players \ live) : PlayS(p)
     ELSE IF r <= 81 /\ live # stalled THEN \E p \in R(live \ stalled) : Stall(p)
     ELSE IF r <= 90 /\ blocked # {} THEN \E p \in R(blocked), n \in R(1..5) : Read(p, n)
     ELSE IF r <= 94 /\ stalled # {} THEN \E p \in R(stalled) : Resume(p)
     ELSE IF r <= 96 THEN \E p \in R(live) : LeaveS(p)
     ELSE IF r <= 97 THEN \E p \in on : UnpublishS(p)
     ELSE \E k \in {Pick}, d \in R(Steps) : FrameS(Top, k, d)

----------------------------------------------------------------------------
Whole(q) == got[q] \o pl[q].inf \o pl[q].q
Subsequence == \A q \in Players : LET b == Body(Whole(q)) IN \A i \in 1..Len(b) - 1 : b[i].f < b[i + 1].f
BoundedS == \A q \in Players : Len(pl[q].q) < Q /\ Cardinality({i \in 1..Len(pl[q].inf) : OQ!Big(pl[q].inf[i])}) <= M
\* however slow, what a player gets is decodable: a non-key frame follows the frame before it
DecodableS == \A q \in live, p \in Pubs : p \in PubOf(q) =>
  LET v == VidS(Whole(q))
      s == SelectSeq(all[p], LAMBDA o : o.k \in {"k", "i"})
  IN ninc = 1 => \A i \in 1..Len(v) : v[i].k = "i" =>
       /\ i > 1
       /\ \E j \in 2..Len(s) : s[j].f = v[i].f /\ s[j - 1].f = v[i - 1].f
HeadersS == \A q \in live, p \in Pubs : (p \in PubOf(q) /\ ninc = 1) => HdrOk(SelectSeq(Whole(q), IsAvk), all[p], 0, 0)
IsolatedS == \A q \in live : ~slow[q] => pl[q].q = <<>> /\ pl[q].inf = <<>>
=============================================================================
