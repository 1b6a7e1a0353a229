-------------------------------- MODULE Gop --------------------------------
(***************************************************************************)
(* The GOP cache (ngx_rtmp_gop_module.c).  Every publisher keeps a bounded *)
(* cache of its latest frames, which begins at a key frame; a player is    *)
(* first brought up from the cache of the forwarding publisher and then    *)
(* follows it frame by frame.  Timestamps are in ms.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Pubs,      \* publisher slots, their number is their priority
          Players,
          Q,         \* out_queue: size of the cache ring and of the out queues
          CT,        \* cache_time
          SendAll, LowLat,
          Fix,       \* fix_timestamp
          ZeroStart,
          Kinds,     \* subset of {"a","ah","k","i","vh","m"}
          T0,        \* first timestamp
          Steps,     \* possible timestamp steps
          MaxFrames,
          Mix,       \* generation: weighted kinds, a sequence
          FlvP,      \* generation: the players over HTTP-FLV, which cannot pause
          Gen

VARIABLES on,     \* joined publishers
          live,   \* joined players
          paused,
          cache,  \* publisher: frames in the cache
          base,   \* publisher: position of the first of them
          has,    \* publisher: cache exists (it sent an audio or video frame)
          hl,     \* publisher: the key frame of the cached GOP was dropped
          hdr,    \* publisher: [a, v] headers in front of the cache (frame or 0)
          lat,    \* publisher: [a, v] its latest headers (frame or 0)
          meta,   \* publisher: metadata version
          ts,     \* publisher: its clock
          st,     \* player: 0 new, 1 metadata given, 2 being brought up, 3 following
          src,    \* player: publisher it follows (incarnation number)
          pos,    \* player: next position
          first,  \* player: timestamp it began at
          mv,     \* player: metadata version it has
          plat,   \* player: [a, v] latest header given (frame id)
          fx,     \* player: timestamp correction per kind: [t, l]
          inc,    \* publisher: incarnation
          ninc, nf,
          all,    \* ghost: publisher: every audio and video frame it sent
          got,    \* ghost: player: what it received since it follows src
          calm,   \* ghost: player: never paused nor short of queue since then
          log

vars == <<on, live, paused, cache, base, has, hl, hdr, lat, meta, ts, st, src, pos, first, mv, plat, fx, inc, ninc, nf, all, got, calm, log>>
pvars == <<cache, base, has, hl, hdr, lat, meta, ts, inc, all>>
qvars == <<st, src, pos, first, mv, plat, fx, got, calm>>

None == [f |-> 0, k |-> "-", ts |-> 0]
NoHdr == [a |-> None, v |-> None]
Fx0 == [a |-> [t |-> 0, l |-> 0], v |-> [t |-> 0, l |-> 0]]

Init ==
  /\ on = {} /\ live = {} /\ paused = {}
  /\ cache = [p \in Pubs |-> <<>>] /\ base = [p \in Pubs |-> 0] /\ has = [p \in Pubs |-> FALSE]
  /\ hl = [p \in Pubs |-> FALSE]
  /\ hdr = [p \in Pubs |-> NoHdr] /\ lat = [p \in Pubs |-> NoHdr]
  /\ meta = [p \in Pubs |-> 0] /\ ts = [p \in Pubs |-> 0]
  /\ st = [q \in Players |-> 0] /\ src = [q \in Players |-> 0] /\ pos = [q \in Players |-> 0]
  /\ first = [q \in Players |-> 0] /\ mv = [q \in Players |-> 0]
  /\ plat = [q \in Players |-> [a |-> 0, v |-> 0]] /\ fx = [q \in Players |-> Fx0]
  /\ inc = [p \in Pubs |-> 0] /\ ninc = 0 /\ nf = 0
  /\ all = [p \in Pubs |-> <<>>] /\ got = [q \in Players |-> <<>>] /\ calm = [q \in Players |-> TRUE]
  /\ log = <<>>

Top == IF on = {} THEN 0 ELSE CHOOSE p \in on : \A x \in on : x <= p
IsHdr(f) == f.k \in {"ah", "vh"}
IsVid(f) == f.k \in {"k", "i", "vh"}
Cls(f) == IF IsVid(f) THEN "v" ELSE "a"
Keys(c) == {i \in 1..Len(c) : c[i].k = "k"}
Age(f, t) == IF f.ts >= t THEN f.ts - t ELSE 2000000000   \* unsigned: clocks which jump back
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
From(c, i) == SubSeq(c, i, Len(c))

----------------------------------------------------------------------------
(* The cache of a publisher: [c, b, h, hl].                                *)

\* headers which leave the cache are kept in front of it
RECURSIVE Shed(_, _)
Shed(x, n) == \* drop the first n frames
  IF n = 0 THEN x
  ELSE LET f == Head(x.c)
       IN Shed([x EXCEPT !.c = Tail(@), !.b = @ + 1,
                         !.h = IF IsHdr(f) THEN [@ EXCEPT ![Cls(f)] = f] ELSE @], n - 1)
RECURSIVE Lead(_)
Lead(x) == IF x.c # <<>> /\ IsHdr(Head(x.c)) THEN Lead(Shed(x, 1)) ELSE x

Skipped(x, f) == f.k = "i" /\ Keys(x.c) = {} /\ ~x.hl   \* not decodable yet

Put(x0, f) ==
  LET full == Len(x0.c) + 1 >= Q
      x1 == IF ~full THEN x0
            ELSE [Shed(x0, 1) EXCEPT !.hl = x0.hl \/ Head(x0.c).k = "k"]
      x2 == IF f.k = "k" /\ x1.hl THEN [Shed(x1, Len(x1.c)) EXCEPT !.hl = FALSE] ELSE x1
      x == Lead([x2 EXCEPT !.c = Append(@, f)])
      ks == Keys(x.c)
      nk == Min(ks \ {Min(ks)})
  IN IF Skipped(x0, f) THEN x1
     ELSE IF x.c = <<>> THEN x
     ELSE IF ks = {} THEN (IF Age(f, Head(x.c).ts) > CT THEN Shed(x, 1) ELSE x)
     ELSE IF Cardinality(ks) = 1 THEN x
     ELSE IF Len(x.c) + 2 >= Q \/ (IsVid(f) /\ Age(f, x.c[nk].ts) >= CT) THEN Shed(x, nk - 1)
     ELSE x

----------------------------------------------------------------------------
(* The player: [st, pos, first, mv, plat, fx, out, calm].                  *)

Corr(c, t) ==  \* timestamp correction of one kind
  LET d0 == IF t > c.l THEN t - c.l ELSE c.l - t
      d  == IF d0 > Fix THEN 0 ELSE d0
  IN [t |-> IF ~ZeroStart /\ c.t = 0 THEN t
            ELSE IF t > c.l THEN c.t + d
            ELSE IF c.t >= d THEN c.t - d ELSE c.t,
      l |-> t]

Room(y) == Len(y.out) < Q - 1

Link(y, f) ==
  IF f = None THEN y
  ELSE IF f.k = "m" THEN (IF Room(y) THEN [y EXCEPT !.out = Append(@, [k |-> "m", f |-> f.f, ts |-> 0])] ELSE y)
  ELSE LET c == Cls(f)
           n == IF Fix = 0 THEN y.fx[c] ELSE Corr(y.fx[c], f.ts)
           z == [y EXCEPT !.fx[c] = n]
       IN IF ~Room(y) THEN z
          ELSE [z EXCEPT !.out = Append(@, [k |-> f.k, f |-> f.f, ts |-> IF Fix = 0 THEN f.ts ELSE n.t]),
                         !.plat = IF IsHdr(f) THEN [@ EXCEPT ![c] = f.f] ELSE @]

Meta(p, y) == IF y.mv = meta[p] THEN y
              ELSE [(IF meta[p] = 0 THEN y ELSE Link(y, [f |-> meta[p], k |-> "m", ts |-> 0])) EXCEPT !.mv = meta[p]]

Hdrs(y, h) == Link(Link(y, h.a), h.v)
\* those of h the player does not have
NewHdrs(y, h) == Hdrs(y, [a |-> IF h.a.f # y.plat.a THEN h.a ELSE None, v |-> IF h.v.f # y.plat.v THEN h.v ELSE None])

RECURSIVE Bring(_, _)
Bring(x, y) ==
  IF y.pos >= x.b + Len(x.c) THEN [y EXCEPT !.st = 3]
  ELSE LET f == x.c[y.pos - x.b + 1]
       IN IF ~SendAll /\ Age(f, y.first) >= CT THEN [y EXCEPT !.st = 3]
          ELSE IF ~Room(y) THEN [Link(y, f) EXCEPT !.calm = FALSE]
          ELSE Bring(x, [Link(y, f) EXCEPT !.pos = @ + 1])

\* p just handled a frame and has cache x
Send(p, x, y0) ==
  LET y == IF y0.src = inc[p] THEN y0
           ELSE [y0 EXCEPT !.src = inc[p], !.st = 0, !.pos = 0, !.plat = [a |-> 0, v |-> 0], !.calm = TRUE, !.cut = TRUE]
      end == x.b + Len(x.c)
  IN IF y.st = 0 THEN [Meta(p, y) EXCEPT !.st = 1]
     ELSE IF y.st = 1
     THEN IF x.c = <<>> \/ x.hl THEN y
          ELSE Bring(x, [Hdrs(y, x.h) EXCEPT !.st = 2, !.pos = x.b, !.first = Head(x.c).ts])
     ELSE IF y.st = 2
     THEN IF y.pos >= x.b THEN Bring(x, y)
          ELSE IF x.hl THEN [y EXCEPT !.calm = FALSE]
          ELSE Bring(x, [NewHdrs(y, x.h) EXCEPT !.pos = x.b, !.calm = FALSE])
     ELSE LET z == Meta(p, y)
              key == x.c # <<>> /\ x.c[Len(x.c)].k = "k"
              w == IF key /\ LowLat /\ z.pos < end - 1
                   THEN [NewHdrs(z, lat'[p]) EXCEPT !.pos = end - 1]
                   ELSE IF z.pos < x.b /\ x.hl THEN [z EXCEPT !.calm = FALSE]
                   ELSE IF z.pos < x.b THEN [NewHdrs(z, x.h) EXCEPT !.pos = x.b, !.calm = FALSE]
                   ELSE z
          IN IF w.pos >= end \/ w.pos < x.b THEN w
             ELSE IF ~Room(w) THEN [Link(w, x.c[w.pos - x.b + 1]) EXCEPT !.calm = FALSE]
             ELSE [Link(w, x.c[w.pos - x.b + 1]) EXCEPT !.pos = @ + 1]

PState(p) == [c |-> cache[p], b |-> base[p], h |-> hdr[p], hl |-> hl[p]]
QState(q) == [st |-> st[q], src |-> src[q], pos |-> pos[q], first |-> first[q], mv |-> mv[q],
              plat |-> plat[q], fx |-> fx[q], out |-> <<>>, calm |-> calm[q], cut |-> FALSE]

SetPlayers(Y) ==  \* Y: the players after the step
  /\ st' = [q \in Players |-> Y[q].st] /\ src' = [q \in Players |-> Y[q].src] /\ pos' = [q \in Players |-> Y[q].pos]
  /\ first' = [q \in Players |-> Y[q].first] /\ mv' = [q \in Players |-> Y[q].mv] /\ plat' = [q \in Players |-> Y[q].plat]
  /\ fx' = [q \in Players |-> Y[q].fx] /\ calm' = [q \in Players |-> Y[q].calm]
  /\ got' = [q \in Players |-> (IF Y[q].cut THEN <<>> ELSE got[q]) \o SelectSeq(Y[q].out, LAMBDA o : o.k # "m")]

Emit(e, Y) == IF Gen THEN log' = Append(log, e @@ [out |-> [q \in Players |-> Y[q].out]]) ELSE UNCHANGED log
Same == [q \in Players |-> QState(q)]
New == [st |-> 0, src |-> 0, pos |-> 0, first |-> 0, mv |-> 0, plat |-> [a |-> 0, v |-> 0], fx |-> Fx0,
        out |-> <<>>, calm |-> TRUE, cut |-> TRUE]
Ev(a, s, k, f, t) == [a |-> a, s |-> s, k |-> k, f |-> f, t |-> t]

----------------------------------------------------------------------------
Publish(p) ==
  /\ p \notin on /\ on' = on \cup {p}
  /\ cache' = [cache EXCEPT ![p] = <<>>] /\ base' = [base EXCEPT ![p] = 0] /\ has' = [has EXCEPT ![p] = FALSE]
  /\ hl' = [hl EXCEPT ![p] = FALSE] /\ hdr' = [hdr EXCEPT ![p] = NoHdr] /\ lat' = [lat EXCEPT ![p] = NoHdr]
  /\ meta' = [meta EXCEPT ![p] = 0] /\ ts' = [ts EXCEPT ![p] = T0] /\ all' = [all EXCEPT ![p] = <<>>]
  /\ ninc' = ninc + 1 /\ inc' = [inc EXCEPT ![p] = ninc + 1]
  /\ calm' = [q \in Players |-> calm[q] /\ (q \notin live \/ on = {})]
  /\ UNCHANGED <<live, paused, nf, st, src, pos, first, mv, plat, fx, got>> /\ Emit(Ev("publish", p, "", 0, 0), Same)

Unpublish(p) ==
  /\ p \in on /\ on' = on \ {p}
  /\ cache' = [cache EXCEPT ![p] = <<>>] /\ base' = [base EXCEPT ![p] = 0] /\ has' = [has EXCEPT ![p] = FALSE]
  /\ hl' = [hl EXCEPT ![p] = FALSE] /\ hdr' = [hdr EXCEPT ![p] = NoHdr] /\ lat' = [lat EXCEPT ![p] = NoHdr]
  /\ UNCHANGED <<live, paused, ninc, nf, meta, ts, inc, all, qvars>> /\ Emit(Ev("unpublish", p, "", 0, 0), Same)

Frame(p, k, d) ==
  /\ p \in on /\ nf < MaxFrames /\ nf' = nf + 1
  /\ LET f == [f |-> nf + 1, k |-> k, ts |-> IF ts[p] + d < 0 THEN 0 ELSE ts[p] + d]
         x == Put(PState(p), f)
     IN /\ ts' = [ts EXCEPT ![p] = f.ts]
        /\ IF k = "m"
           THEN /\ meta' = [meta EXCEPT ![p] = f.f]
                /\ UNCHANGED <<cache, base, has, hl, hdr, lat, all, qvars>>
                /\ Emit(Ev("frame", p, k, f.f, f.ts), Same)
           ELSE /\ cache' = [cache EXCEPT ![p] = x.c] /\ base' = [base EXCEPT ![p] = x.b] /\ hl' = [hl EXCEPT ![p] = x.hl]
                /\ hdr' = [hdr EXCEPT ![p] = x.h] /\ has' = [has EXCEPT ![p] = TRUE]
                /\ lat' = [lat EXCEPT ![p] = IF IsHdr(f) THEN [@ EXCEPT ![Cls(f)] = f] ELSE @]
                /\ all' = [all EXCEPT ![p] = Append(@, [f |-> f.f, k |-> k, h |-> [a |-> lat'[p].a.f, v |-> lat'[p].v.f]])]
                /\ UNCHANGED meta
                /\ LET Y == [q \in Players |-> IF q \in live \ paused /\ p = Top THEN Send(p, x, QState(q)) ELSE QState(q)]
                   IN SetPlayers(Y) /\ Emit(Ev("frame", p, k, f.f, f.ts), Y)
  /\ UNCHANGED <<on, live, paused, inc, ninc>>

Play(q) ==
  /\ q \notin live /\ live' = live \cup {q} /\ paused' = paused \ {q}
  /\ LET y == IF Top # 0 /\ has[Top] THEN [Meta(Top, New) EXCEPT !.st = 1, !.src = inc[Top]] ELSE New
         Y == [Same EXCEPT ![q] = y]
     IN SetPlayers(Y) /\ Emit(Ev("play", q, "", 0, 0), Y)
  /\ UNCHANGED <<on, ninc, nf, pvars>>

Leave(q) ==
  /\ q \in live /\ live' = live \ {q} /\ paused' = paused \ {q}
  /\ SetPlayers([Same EXCEPT ![q] = New])
  /\ UNCHANGED <<on, ninc, nf, pvars>> /\ Emit(Ev("leave", q, "", 0, 0), Same)

Pause(q) ==
  /\ q \in live \ paused /\ paused' = paused \cup {q} /\ calm' = [calm EXCEPT ![q] = FALSE]
  /\ UNCHANGED <<on, live, ninc, nf, pvars, st, src, pos, first, mv, plat, fx, got>> /\ Emit(Ev("pause", q, "", 0, 0), Same)
Unpause(q) ==
  /\ q \in paused /\ paused' = paused \ {q}
  /\ UNCHANGED <<on, live, ninc, nf, pvars, qvars>> /\ Emit(Ev("unpause", q, "", 0, 0), Same)

Next ==
  \/ \E p \in Pubs : Publish(p) \/ Unpublish(p)
  \/ \E p \in Pubs, k \in Kinds, d \in Steps : Frame(p, k, d)
  \/ \E q \in Players : Play(q) \/ Leave(q) \/ Pause(q) \/ Unpause(q)

Spec == Init /\ [][Next]_vars

(* generation: mostly frames of the forwarding publisher *)
Pick == Mix[RandomElement({x \in 1..Len(Mix) : nf >= 0})]
R(S) == {RandomElement({x \in S : nf >= 0})}
GenNext ==
  LET r == RandomElement({x \in 1..100 : nf >= 0})
  IN IF on = {} THEN (\E p \in R(Pubs) : Publish(p)) \/ (live = {} /\ \E q \in R(Players) : Play(q))
     ELSE IF r <= 78 THEN \E p \in IF r <= 68 THEN {Top} ELSE R(on), k \in {Pick}, d \in R(Steps) : Frame(p, k, d)
     ELSE IF r <= 88 /\ live # Players THEN \E q \in R(Players \ live) : Play(q)
     ELSE IF r <= 90 /\ on # Pubs THEN \E p \in R(Pubs \ on) : Publish(p)
     ELSE IF r <= 92 THEN \E p \in R(on) : Unpublish(p)
     ELSE IF r <= 95 /\ live # {} THEN \E q \in R(live) : Leave(q)
     ELSE IF r <= 97 /\ live \ (paused \cup FlvP) # {} THEN \E q \in R(live \ (paused \cup FlvP)) : Pause(q)
     ELSE IF paused # {} THEN \E q \in R(paused) : Unpause(q)
     ELSE \E k \in {Pick}, d \in R(Steps) : Frame(Top, k, d)

----------------------------------------------------------------------------
(* Properties of what a player got since it follows a publisher.           *)
PubOf(q) == {p \in Pubs : inc[p] = src[q]}
Body(g) == SelectSeq(g, LAMBDA o : o.k \in {"a", "k", "i"})
VidS(g) == SelectSeq(g, LAMBDA o : o.k \in {"k", "i"})

\* in order, none twice
Ordered == \A q \in Players : LET b == Body(got[q]) IN \A i \in 1..Len(b) - 1 : b[i].f < b[i + 1].f
\* a non-key frame only follows the frame before it
Decodable == \A q \in live, p \in Pubs : p \in PubOf(q) =>
  LET v == VidS(got[q])
      s == SelectSeq(all[p], LAMBDA o : o.k \in {"k", "i"})
  IN \A i \in 1..Len(v) : v[i].k = "i" =>
       /\ i > 1
       /\ \E j \in 2..Len(s) : s[j].f = v[i].f /\ s[j - 1].f = v[i - 1].f
\* the codec header in force came before
RECURSIVE HdrOk(_, _, _, _)
HdrOk(g, s, a, v) ==
  IF g = <<>> THEN TRUE ELSE
  LET o == Head(g) IN
  IF o.k = "ah" THEN HdrOk(Tail(g), s, o.f, v)
  ELSE IF o.k = "vh" THEN HdrOk(Tail(g), s, a, o.f)
  ELSE (\E j \in 1..Len(s) : s[j].f = o.f /\ (IF o.k = "a" THEN s[j].h.a = a ELSE s[j].h.v = v)) /\ HdrOk(Tail(g), s, a, v)
Headers == \A q \in live, p \in Pubs : p \in PubOf(q) => HdrOk(got[q], all[p], 0, 0)
\* brought up with everything in the cache, a player stays with its publisher
\* (no other publisher came meanwhile: then frames are held back like in a pause)
UpToDate == SendAll => \A q \in live \ paused : (calm[q] /\ Top # 0 /\ src[q] = inc[Top] /\ st[q] = 3) =>
              pos[q] = base[Top] + Len(cache[Top])
NoGap == SendAll => \A q \in live, p \in Pubs : (p \in PubOf(q) /\ calm[q]) =>
  LET b == Body(got[q])
      s == SelectSeq(all[p], LAMBDA o : o.k \in {"a", "k", "i"} /\ (o.k # "i" \/ \E x \in 1..Len(all[p]) : all[p][x].k = "k" /\ all[p][x].f < o.f))
  IN Len(b) < 2 \/ \E i \in 1..Len(s) : \A j \in 1..Len(b) : i + j - 1 <= Len(s) /\ s[i + j - 1].f = b[j].f
\* timestamps are the publisher's as long as it makes no jumps
TsKept == \A q \in Players : \A i \in 1..Len(got[q]) - 1 : got[q][i].ts >= 0
Bounded == \A p \in Pubs : Len(cache[p]) < Q

Small == ninc <= 2
View == <<on, live, paused, cache, base, has, hl, hdr, lat, meta, ts, st, src, pos, first, mv, plat, fx, inc, got, all, calm>>
=============================================================================
