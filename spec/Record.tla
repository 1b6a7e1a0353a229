------------------------------- MODULE Record -------------------------------
(***************************************************************************)
(* Recording to FLV (ngx_rtmp_record_module.c).  An application has a list *)
(* of recorders; every recorder of an accepted publisher writes the media  *)
(* its publisher sends to a file named after the stream.  Files are        *)
(* sequences of tags; a tag refers to the message it holds.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Slots, Names,
          Recs,      \* sequence of recorders: [a, v, kf, man, ap, un: BOOLEAN, ms, mf, int: Nat, bad: BOOLEAN]
          Async,     \* publishing is decided by a callback, later
          Kinds,     \* subset of {"ah","a","m3","vh","k","i","hvh","hk","hi","sk","si"}
          Lens,      \* payload lengths
          Steps,     \* timestamp steps, may be negative
          MaxFrames, MaxTick, MaxLevel,
          Mix, Gen

VARIABLES st,    \* slot: "idle" | "pend" | "pub" | "ref"
          nm,    \* slot: name
          ts,    \* slot: its clock
          cod,   \* slot: [ac, vc: codec, ah, vh: header frame or 0]
          ps,    \* slot: 0 running, 1 paused, 2 waits for a key frame
          beg,   \* slot: recording was started
          node,  \* slot: recorder: node
          file,  \* key <<recorder, name, tick>>: [h: BOOLEAN, av: Nat, tags]
          tick,
          snt,   \* ghost: every message: [s, n, k, len, ts, rec: is media of the stream, g: the opening per recorder, u: usable]
          gen,   \* ghost: number of openings
          log

vars == <<st, nm, ts, cod, ps, beg, node, file, tick, snt, gen, log>>

R == 1..Len(Recs)
Audio(k) == k \in {"ah", "a", "m3"}
Hdr(k) == k \in {"ah", "vh", "hvh"}                           \* a codec header
Key(k) == k \in {"vh", "k", "hvh", "hk", "sk"}                \* frame type key
ACodec(k) == IF k = "m3" THEN 2 ELSE 10
VCodec(k) == IF k \in {"vh", "k", "i"} THEN 7 ELSE IF k \in {"hvh", "hk", "hi"} THEN 12 ELSE 2

Node0 == [open |-> FALSE, ini |-> FALSE, key |-> <<0, 0, 0>>, ep |-> 0, sh |-> 0, nf |-> 0,
          asent |-> FALSE, vsent |-> FALSE, ksent |-> FALSE, v |-> FALSE, a |-> FALSE, failed |-> FALSE, g |-> 0, first |-> 0]
File0 == [h |-> FALSE, av |-> 0, tags |-> <<>>]
Cod0 == [ac |-> 0, vc |-> 0, ah |-> 0, vh |-> 0]

Init == /\ st = [s \in Slots |-> "idle"] /\ nm = [s \in Slots |-> 0] /\ ts = [s \in Slots |-> 0]
        /\ cod = [s \in Slots |-> Cod0] /\ ps = [s \in Slots |-> 0] /\ beg = [s \in Slots |-> FALSE]
        /\ node = [s \in Slots |-> [r \in R |-> Node0]] /\ file = <<>> /\ tick = 0 /\ snt = <<>> /\ gen = 0 /\ log = <<>>

Say(e) == log' = IF Gen THEN Append(log, e) ELSE log

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE 15 + q[1].len + Sum(Tail(q))
Size(f) == IF f.tags = <<>> THEN 0 ELSE 13 + Sum(f.tags)      \* where an appending recorder goes on

(***************************************************************************)
(* What a recorder does works on [n: its node, f: the files, e: what can   *)
(* be seen].                                                               *)
(***************************************************************************)
Ev(x, e) == [x EXCEPT !.e = Append(@, e)]
Put(f, k, v) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN v ELSE f[q]]
B(b, n) == IF b THEN n ELSE 0

Open(x, r, n, g) ==
  IF x.n.open THEN x
  ELSE IF Recs[r].bad THEN Ev([x EXCEPT !.n = [Node0 EXCEPT !.failed = TRUE]], [o |-> "failed", r |-> r])
  ELSE LET k == <<r, n, IF Recs[r].un THEN tick ELSE 0>>
           old == IF Recs[r].ap /\ k \in DOMAIN x.f THEN x.f[k] ELSE File0
           more == old.tags # <<>>
       IN Ev([x EXCEPT !.n = [Node0 EXCEPT !.open = TRUE, !.key = k, !.g = g, !.first = Len(old.tags),
                                           !.sh = IF more THEN old.tags[Len(old.tags)].ts ELSE 0,
                                           !.v = more /\ old.av % 2 = 1, !.a = more /\ old.av >= 4],
                       !.f = Put(@, k, old)],
             [o |-> "open", r |-> r, k |-> k, tr |-> ~Recs[r].ap])

Close(x, r) ==
  IF ~x.n.open THEN x
  ELSE LET av == B(x.n.v, 1) + B(x.n.a, 4)
       IN Ev([x EXCEPT !.n.open = FALSE, !.f = IF x.n.ini THEN [@ EXCEPT ![x.n.key].av = av] ELSE @],
             [o |-> "close", r |-> r, k |-> x.n.key, av |-> IF x.n.ini THEN av ELSE -1])

\* one tag; only media counts for the limits
Write(x, r, k, m, hd, t, len, media) ==
  LET w == IF t - x.n.ep < 0 THEN 0 ELSE t - x.n.ep
      y == Ev([x EXCEPT !.f = [@ EXCEPT ![x.n.key].tags = Append(@, [a |-> Audio(k), k |-> k, m |-> m, hd |-> hd, ts |-> w, len |-> len, g |-> x.n.g])],
                        !.n.v = @ \/ ~Audio(k), !.n.a = @ \/ Audio(k), !.n.nf = @ + B(media, 1)],
              [o |-> "tag", r |-> r, k |-> x.n.key, m |-> m, ts |-> w])
  IN IF media /\ ((Recs[r].ms > 0 /\ Size(y.f[y.n.key]) >= Recs[r].ms) \/ (Recs[r].mf > 0 /\ y.n.nf >= Recs[r].mf))
     THEN Close(y, r) ELSE y

(***************************************************************************)
(* A message of kind k, number m, of a publisher whose codecs are c.       *)
(***************************************************************************)
Break(r, k) == IF Audio(k) THEN ~Recs[r].v ELSE Key(k)
Wanted(r, k) == IF Audio(k) THEN Recs[r].a ELSE Recs[r].v \/ (Recs[r].kf /\ Key(k))

Reopened(x, r, n, k, g) ==
  IF ~Break(r, k) \/ Recs[r].man THEN x
  ELSE IF Recs[r].int = 1 THEN Open(Close(x, r), r, n, g)     \* the interval is over
  ELSE IF Recs[r].int = 2 THEN x
  ELSE IF x.n.failed THEN x ELSE Open(x, r, n, g)

Begun(x, k, t) ==
  IF x.n.ini THEN x
  ELSE LET more == x.f[x.n.key].tags # <<>>
       IN IF more THEN [x EXCEPT !.n.ini = TRUE, !.n.ep = t - x.n.sh]
          ELSE Ev([x EXCEPT !.n.ini = TRUE, !.n.ep = t - x.n.sh, !.f = [@ EXCEPT ![x.n.key].h = TRUE, ![x.n.key].av = 5]],
                  [o |-> "head", k |-> x.n.key])

AHead(x, r, c, t, ms) ==
  IF x.n.asent \/ c.ah = 0 \/ ~Recs[r].a THEN x
  ELSE [Write(x, r, "ah", c.ah, TRUE, t, ms[c.ah].len, FALSE) EXCEPT !.n.asent = TRUE]
VHead(x, r, c, t, ms) ==
  IF x.n.vsent \/ c.vh = 0 \/ ~(Recs[r].v \/ Recs[r].kf) THEN x
  ELSE [Write(x, r, ms[c.vh].k, c.vh, TRUE, t, ms[c.vh].len, FALSE) EXCEPT !.n.vsent = TRUE]

Media(x, r, n, k, m, t, c, ms, g) ==
  LET a == Reopened(x, r, n, k, g)
      out == ~a.n.open \/ ~Wanted(r, k) \/ (Recs[r].man /\ ~Break(r, k) /\ a.n.nf = 0)
      b == Begun(a, k, t)
      d == VHead(AHead(b, r, c, t, ms), r, c, t, ms)
      now == (k = "ah" /\ d.n.asent # b.n.asent) \/ (k \in {"vh", "hvh"} /\ d.n.vsent # b.n.vsent)   \* just written
      d2 == IF ~Audio(k) /\ Key(k) /\ (~Hdr(k)) THEN [d EXCEPT !.n.ksent = TRUE] ELSE d
  IN IF out THEN a
     ELSE IF now THEN d
     ELSE IF Audio(k)
          THEN IF c.ac = 10 /\ ~d.n.asent THEN d ELSE Write(d, r, k, m, FALSE, t, ms[m].len, TRUE)
          ELSE IF c.vc = 7 /\ ~d.n.vsent THEN d
               ELSE IF ~d2.n.ksent /\ ~Hdr(k) THEN d2 ELSE Write(d2, r, k, m, FALSE, t, ms[m].len, TRUE)

\* all recorders of a publisher, one after the other
Do(x, r, w) ==
  CASE w.o = "start" -> IF Recs[r].man THEN x ELSE Open(x, r, w.n, w.g)
    [] w.o = "stop" -> Close(x, r)
    [] w.o = "manual" -> IF w.r # r THEN x ELSE IF w.on THEN Open(x, r, w.n, w.g) ELSE Close(x, r)
    [] w.o = "media" -> Media(IF w.beg \/ Recs[r].man THEN x ELSE Open(x, r, w.n, w.g), r, w.n, w.k, w.m, w.t, w.c, w.ms, w.g)
RECURSIVE Each(_, _, _, _, _)
Each(r, ns, f, e, w) ==
  IF r > Len(Recs) THEN [n |-> ns, f |-> f, e |-> e]
  ELSE LET x == Do([n |-> ns[r], f |-> f, e |-> e], r, w)
       IN Each(r + 1, [ns EXCEPT ![r] = x.n], x.f, x.e, w)
All(s, w) == Each(1, node[s], file, <<>>, w)
Stop(s) == All(s, [o |-> "stop"])

Holder(n) == {s \in Slots : st[s] = "pub" /\ nm[s] = n}

(***************************************************************************)
(* Steps                                                                   *)
(***************************************************************************)
Publish(s, n) ==
  /\ st[s] = "idle"
  /\ nm' = [nm EXCEPT ![s] = n]
  /\ cod' = [cod EXCEPT ![s] = Cod0] /\ ps' = [ps EXCEPT ![s] = 0]
  /\ IF Async
     THEN /\ st' = [st EXCEPT ![s] = "pend"] /\ beg' = [beg EXCEPT ![s] = FALSE] /\ UNCHANGED <<node, file, gen>>
          /\ Say([a |-> "publish", s |-> s, n |-> n, ok |-> 2, e |-> <<>>])
     ELSE IF Holder(n) # {}
     THEN /\ st' = [st EXCEPT ![s] = "ref"] /\ UNCHANGED <<node, file, gen, beg>>
          /\ Say([a |-> "publish", s |-> s, n |-> n, ok |-> 0, e |-> <<>>])
     ELSE LET x == All(s, [o |-> "start", n |-> n, g |-> gen + 1])
          IN /\ st' = [st EXCEPT ![s] = "pub"] /\ beg' = [beg EXCEPT ![s] = TRUE] /\ gen' = gen + 1
             /\ node' = [node EXCEPT ![s] = x.n] /\ file' = x.f
             /\ Say([a |-> "publish", s |-> s, n |-> n, ok |-> 1, e |-> x.e])
  /\ UNCHANGED <<ts, tick, snt>>

\* not allowed to publish: by address, or by the callback
Denied(s, n) ==
  /\ st[s] = "idle"
  /\ Say([a |-> "denied", s |-> s, n |-> n])
  /\ UNCHANGED <<st, nm, ts, cod, ps, beg, node, file, tick, snt, gen>>

Answer(s, ok) ==
  /\ st[s] = "pend"
  /\ st' = [st EXCEPT ![s] = IF ~ok THEN "idle" ELSE IF Holder(nm[s]) # {} THEN "ref" ELSE "pub"]
  /\ Say([a |-> "answer", s |-> s, n |-> nm[s], ok |-> IF ~ok THEN 0 ELSE IF Holder(nm[s]) # {} THEN 1 ELSE 2])
  /\ UNCHANGED <<nm, ts, cod, ps, beg, node, file, tick, snt, gen>>

Send(s, k, len, d) ==
  /\ st[s] # "idle" /\ Len(snt) < MaxFrames /\ ts[s] + d >= 0
  /\ (st[s] = "pend" => Gen \/ Hdr(k))                      \* keeps it small: what matters then are headers
  /\ LET m == Len(snt) + 1
         t == ts[s] + d
         c0 == cod[s]
         c == IF Audio(k) THEN [c0 EXCEPT !.ac = ACodec(k), !.ah = IF k = "ah" THEN m ELSE @]
              ELSE [c0 EXCEPT !.vc = VCodec(k), !.vh = IF Hdr(k) THEN m ELSE @]
         \* resumed: goes on at a key frame, at once when there is no video
         p == IF ps[s] = 2 /\ (c.vc = 0 \/ Key(k)) THEN 0 ELSE ps[s]
         rec == st[s] = "pub" /\ p = 0
         gg == gen + 1
         ms == Append(snt, [s |-> s, n |-> nm[s], k |-> k, len |-> len, ts |-> t, rec |-> rec])
         x == IF rec THEN All(s, [o |-> "media", beg |-> beg[s], n |-> nm[s], k |-> k, m |-> m, t |-> t, c |-> c, ms |-> ms, g |-> gg]) ELSE [n |-> node[s], f |-> file, e |-> <<>>]
     IN /\ ts' = [ts EXCEPT ![s] = t] /\ cod' = [cod EXCEPT ![s] = c] /\ ps' = [ps EXCEPT ![s] = p]
        /\ beg' = [beg EXCEPT ![s] = @ \/ rec]
        /\ snt' = ms /\ node' = [node EXCEPT ![s] = x.n] /\ file' = x.f /\ gen' = IF rec THEN gg ELSE gen
        /\ Say([a |-> "send", s |-> s, m |-> m, k |-> k, len |-> len, ts |-> t, e |-> x.e])
  /\ UNCHANGED <<st, nm, tick>>

Leave(s) ==
  /\ st[s] # "idle"
  /\ LET x == IF st[s] = "pub" THEN Stop(s) ELSE [n |-> node[s], f |-> file, e |-> <<>>]
     IN /\ node' = [node EXCEPT ![s] = [r \in R |-> Node0]] /\ file' = x.f
        /\ Say([a |-> "leave", s |-> s, e |-> x.e])
  /\ st' = [st EXCEPT ![s] = "idle"] /\ beg' = [beg EXCEPT ![s] = FALSE] /\ ts' = [ts EXCEPT ![s] = 0]
  /\ UNCHANGED <<nm, cod, ps, tick, snt, gen>>

\* control requests
Manual(s, r, on) ==
  /\ st[s] = "pub"
  /\ LET x == All(s, [o |-> "manual", r |-> r, on |-> on, n |-> nm[s], g |-> gen + 1])
     IN /\ node' = [node EXCEPT ![s] = x.n] /\ file' = x.f
        /\ Say([a |-> "manual", s |-> s, n |-> nm[s], r |-> r, on |-> on, e |-> x.e])
  /\ gen' = gen + 1
  /\ UNCHANGED <<st, nm, ts, cod, ps, beg, tick, snt>>

Pause(s) ==
  /\ st[s] = "pub" /\ ps[s] # 1
  /\ ps' = [ps EXCEPT ![s] = 1] /\ Say([a |-> "pause", s |-> s, n |-> nm[s]])
  /\ UNCHANGED <<st, nm, ts, cod, beg, node, file, tick, snt, gen>>
Resume(s) ==
  /\ st[s] = "pub" /\ ps[s] = 1
  /\ ps' = [ps EXCEPT ![s] = 2] /\ Say([a |-> "resume", s |-> s, n |-> nm[s]])
  /\ UNCHANGED <<st, nm, ts, cod, beg, node, file, tick, snt, gen>>

Tick ==
  /\ tick < MaxTick /\ \E r \in R : Recs[r].un
  /\ tick' = tick + 1 /\ Say([a |-> "tick"])
  /\ UNCHANGED <<st, nm, ts, cod, ps, beg, node, file, snt, gen>>

Next ==
  \/ \E s \in Slots, n \in Names : Publish(s, n) \/ (Gen /\ Denied(s, n))
  \/ \E s \in Slots, ok \in BOOLEAN : Answer(s, ok)
  \/ \E s \in Slots, k \in Kinds, l \in Lens, d \in Steps : Send(s, k, l, d)
  \/ \E s \in Slots : Leave(s) \/ Pause(s) \/ Resume(s)
  \/ \E s \in Slots, r \in R, on \in BOOLEAN : Manual(s, r, on)
  \/ Tick

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The recording, declared: what one opening g of recorder r of the file   *)
(* must hold, from the messages alone.                                     *)
(***************************************************************************)
Tags(k, g) == SelectSeq(file[k].tags, LAMBDA t : t.g = g)
Opens == {t.g : t \in UNION {{file[k].tags[i] : i \in 1..Len(file[k].tags)} : k \in DOMAIN file}}
MediaOf(q) == SelectSeq(q, LAMBDA t : ~t.hd)

\* only media of the stream's accepted publisher, of the configured kinds
Owner == \A k \in DOMAIN file : \A i \in 1..Len(file[k].tags) :
  LET t == file[k].tags[i] m == snt[t.m]
  IN m.n = k[2] /\ (t.hd \/ (m.rec /\ Wanted(k[1], m.k))) /\ t.len = m.len /\ t.k = m.k
\* once, in order
Ordered == \A k \in DOMAIN file : \A i, j \in 1..Len(file[k].tags) :
  (i < j /\ ~file[k].tags[i].hd /\ ~file[k].tags[j].hd) => file[k].tags[i].m < file[k].tags[j].m
\* no codec header twice in one opening unless it was sent again
HeadOnce == \A k \in DOMAIN file : \A i, j \in 1..Len(file[k].tags) :
  LET q == file[k].tags IN (i < j /\ q[i].g = q[j].g) => q[i].m # q[j].m
\* decodable: headers first, video from a key frame
Decodable == \A k \in DOMAIN file : \A i \in 1..Len(file[k].tags) :
  LET q == file[k].tags t == q[i]
      Before(S) == \E j \in 1..i - 1 : q[j].k \in S /\ q[j].g = t.g
  IN ~t.hd => /\ (t.k = "a" => Before({"ah"}))
              /\ (t.k \in {"k", "i"} => Before({"vh", "hvh"}))
              /\ (~t.a /\ ~Key(t.k) => Before({"k", "hk", "sk"}))
\* nothing is left out: between two tags of one opening no wanted message of the session is missing
Complete == \A k \in DOMAIN file : \A i, j \in 1..Len(file[k].tags) :
  LET q == file[k].tags
  IN (i < j /\ q[i].g = q[j].g /\ ~q[i].hd /\ ~q[j].hd /\ q[i].a = q[j].a /\ (\A z \in i + 1..j - 1 : (q[z].hd \/ q[z].a # q[i].a))) =>
       \A m \in q[i].m + 1..q[j].m - 1 :
          (snt[m].s = snt[q[i].m].s /\ snt[m].rec /\ Audio(snt[m].k) = q[i].a) =>
             (~Wanted(k[1], snt[m].k) \/ (\E h \in 1..Len(q) : q[h].hd /\ q[h].g = q[i].g /\ q[h].m = m)
              \/ (Hdr(snt[m].k) = FALSE /\ ~\E h \in 1..j : q[h].k \in (IF q[i].a THEN {"ah"} ELSE {"vh", "hvh"}) /\ q[h].g = q[i].g /\ q[h].m < m)
              \/ (~q[i].a /\ ~Key(snt[m].k) /\ ~\E h \in 1..i : q[h].k \in {"k", "hk", "sk"} /\ q[h].g = q[i].g))
\* timestamps never run back further than the publisher's did, and go on in an appended file
Clock == \A k \in DOMAIN file : \A i \in 1..Len(file[k].tags) - 1 :
  LET q == file[k].tags t == q[i] u == q[i + 1]
  IN IF t.g # u.g THEN (\A d \in Steps : d >= 0) => u.ts >= t.ts
     ELSE (~t.hd /\ ~u.hd /\ t.ts > 0 /\ u.ts > 0) => u.ts - t.ts = snt[u.m].ts - snt[t.m].ts
\* limits end a file at the first message that reaches them
Limits == \A k \in DOMAIN file : \A g \in Opens :
  LET q == MediaOf(Tags(k, g)) r == Recs[k[1]]
  IN (r.mf > 0 => Len(q) <= r.mf)
\* a closed recording is marked with what it holds
Mask == \A k \in DOMAIN file :
  (\A s \in Slots, r \in R : ~(node[s][r].open /\ node[s][r].key = k)) => (file[k].tags # <<>> =>
     /\ (file[k].av % 2 = 1) = (\E i \in 1..Len(file[k].tags) : ~file[k].tags[i].a)
     /\ (file[k].av >= 4) = (\E i \in 1..Len(file[k].tags) : file[k].tags[i].a))
\* one writer
Single == \A s, u \in Slots, r \in R : (s # u /\ node[s][r].open /\ node[u][r].open) => node[s][r].key # node[u][r].key
Bound == TLCGet("level") <= MaxLevel
View == <<st, nm, ts, cod, ps, beg, node, file, tick, snt>>

(***************************************************************************)
(* Generation                                                              *)
(***************************************************************************)
Pick(S) == RandomElement({x \in S : Len(log) >= 0})
PickSeq(q) == q[Pick(1..Len(q))]
GenNext ==
  LET live == {q \in Slots : st[q] = "pub"} Some(S) == {Pick(IF S = {} THEN Slots ELSE S)} IN
  \E s \in {Pick(Slots)}, n \in {Pick(Names)}, r \in {Pick(R)}, d \in {Pick(1..40)}, on \in {Pick(BOOLEAN)},
     k \in {PickSeq(Mix)}, l \in {Pick(Lens)}, dt \in {Pick(Steps)}, i \in Some(live), a \in Some({q \in Slots : st[q] # "idle"}),
     p \in Some({q \in Slots : st[q] = "pend"}) :
     IF live = {} \/ d = 1
     THEN IF \E q \in Slots : st[q] = "pend" /\ d > 8 THEN Answer(p, d % 4 # 0)
          ELSE IF \E q \in Slots : st[q] # "idle" THEN (IF d % 2 = 0 THEN (IF st[s] = "idle" THEN Publish(s, n) ELSE Leave(s)) ELSE Send(a, k, l, IF ts[a] + dt >= 0 THEN dt ELSE 0))
          ELSE Publish(s, n)
     ELSE CASE d <= 3 -> IF st[s] = "idle" THEN Publish(s, n) ELSE Send(i, k, l, IF ts[i] + dt >= 0 THEN dt ELSE 0)
            [] d = 4 -> IF st[s] = "idle" THEN Denied(s, n) ELSE Leave(s)
            [] d = 5 -> Leave(i)
            [] d \in {6, 7} -> Manual(i, r, on)
            [] d = 8 -> IF ps[i] = 1 THEN Resume(i) ELSE Pause(i)
            [] d = 9 -> IF ps[i] = 1 THEN Resume(i) ELSE Send(i, k, l, IF ts[i] + dt >= 0 THEN dt ELSE 0)
            [] d = 10 -> IF tick < MaxTick /\ \E q \in R : Recs[q].un THEN Tick ELSE Send(i, k, l, IF ts[i] + dt >= 0 THEN dt ELSE 0)
            [] d \in {11, 12} -> IF \E q \in Slots : st[q] = "pend" THEN Answer(p, d = 11) ELSE Send(a, k, l, IF ts[a] + dt >= 0 THEN dt ELSE 0)
            [] OTHER -> Send(i, k, l, IF ts[i] + dt >= 0 THEN dt ELSE 0)
=============================================================================
