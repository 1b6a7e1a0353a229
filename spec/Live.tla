------------------------------- MODULE Live -------------------------------
(***************************************************************************)
(* The live fan-out of pingos: sessions publish, play, send media, pause,  *)
(* leave and disconnect.  One action per message handler                   *)
(* (ngx_rtmp_cmd_module.c, ngx_live.c, ngx_rtmp_live_module.c,             *)
(* ngx_rtmp_codec_module.c); every action records in `log` what every      *)
(* client must observe, and replay compares exactly that.                  *)
(*                                                                         *)
(* The specification is implementation shaped (per chunk stream activity,  *)
(* cached codec headers, per stream activity); the properties below it are *)
(* stated over the abstract ghost history `due`.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Sess,        \* client slots (1..k)
          FlvSess,     \* the slots which play over HTTP-FLV (and never publish)
          Names,       \* stream names
          Pris,        \* publish priorities
          Kinds,       \* subset of {"a","ah","k","i","vh","hh","x","m"}: audio, AAC header,
                       \* key, inter, AVC header, HEVC header, other video frame type, metadata
          IdleStreams, \* idle_streams on/off
          PubNotify,   \* publish_notify on/off
          PlayRestart, \* play_restart on/off
          WaitKey, WaitVideo, Interleave,
          MaxFrames,
          Gen          \* record the history (replay) or not (model checking)

VARIABLES role,    \* idle | conn | pub | dup | play | left
          name, pri,
          paused,
          act,     \* ctx->active
          sact,    \* stream->active
          cs,      \* player: [a,v] chunk stream active
          mv,      \* player: metadata version it has
          pcs,     \* publisher: last frame id per chunk stream (0: none)
          hdr,     \* publisher: cached codec header frame id
          meta,    \* publisher: metadata version (frame id)
          nf,      \* frames sent so far
          due, got,\* ghost: what every player must have / has received
          log

vars == <<role, name, pri, paused, act, sact, cs, mv, pcs, hdr, meta, nf, due, got, log>>

Rtmp == Sess \ FlvSess
None == [a |-> FALSE, v |-> FALSE]
Zero == [a |-> 0, v |-> 0]

Init ==
  /\ role = [s \in Sess |-> "idle"] /\ name = [s \in Sess |-> 0] /\ pri = [s \in Sess |-> 0]
  /\ paused = [s \in Sess |-> FALSE] /\ act = [s \in Sess |-> FALSE]
  /\ sact = [n \in Names |-> FALSE]
  /\ cs = [s \in Sess |-> None] /\ mv = [s \in Sess |-> 0]
  /\ pcs = [s \in Sess |-> Zero] /\ hdr = [s \in Sess |-> Zero] /\ meta = [s \in Sess |-> 0]
  /\ nf = 0 /\ due = [s \in Sess |-> <<>>] /\ got = [s \in Sess |-> <<>>]
  /\ log = <<>>

Pubs(n)    == {s \in Sess : role[s] = "pub" /\ name[s] = n}
Dups(n)    == {s \in Sess : role[s] = "dup" /\ name[s] = n}
Players(n) == {s \in Sess : role[s] = "play" /\ name[s] = n}
Top(n, s)  == s \in Pubs(n) /\ \A q \in Pubs(n) : pri[q] <= pri[s]
Attached(n) == Pubs(n) \cup Dups(n) \cup Players(n)

Quiet == [s \in Sess |-> <<>>]
Tok(k) == [k |-> k, f |-> 0, t |-> 0]
Mark == [f |-> 0, k |-> "-"]      \* ghost: (re)start of delivery
Marked(d) == IF d # <<>> /\ d[Len(d)] = Mark THEN d ELSE Append(d, Mark)
IsAV(t) == t.k \in {"a", "k", "i"}

(* what clients see of a change of the stream's activity *)
BeginToks == <<Tok("Begin")>> \o (IF PlayRestart THEN <<Tok("PlayStart")>> ELSE <<>>) \o (IF PubNotify THEN <<Tok("PublishNotify")>> ELSE <<>>)
EofToks   == <<Tok("Eof")>> \o (IF PlayRestart THEN <<Tok("PlayStop")>> ELSE <<>>) \o (IF PubNotify THEN <<Tok("UnpublishNotify")>> ELSE <<>>)

(* the attached sessions of every name after the step: what the published   *)
(* registry must show (refused publishers d keep the stream, unlisted)      *)
Reg(r, nm) == [n \in Names |-> [p |-> {s \in Sess : r[s] = "pub" /\ nm[s] = n},
                                q |-> {s \in Sess : r[s] = "play" /\ nm[s] = n},
                                d |-> {s \in Sess : r[s] = "dup" /\ nm[s] = n}]]

Emit(e, out) ==
  IF Gen THEN log' = Append(log, e @@ [out |-> out, reg |-> Reg(role', name')])
         ELSE UNCHANGED log

Ev(a, s, n, p, k, f) == [a |-> a, s |-> s, n |-> n, p |-> p, k |-> k, f |-> f]

--------------------------------------------------------------------------
Connect(s) ==
  /\ s \in Rtmp /\ role[s] = "idle"
  /\ role' = [role EXCEPT ![s] = "conn"]
  /\ UNCHANGED <<name, pri, paused, act, sact, cs, mv, pcs, hdr, meta, nf, due, got>>
  /\ Emit(Ev("connect", s, 0, 0, "", 0), Quiet)

Publish(s, n, p) ==
  /\ role[s] = "conn"
  /\ LET dup == \E q \in Pubs(n) : pri[q] = p
     IN /\ role' = [role EXCEPT ![s] = IF dup THEN "dup" ELSE "pub"]
        /\ name' = [name EXCEPT ![s] = n] /\ pri' = [pri EXCEPT ![s] = p]
        /\ act' = [act EXCEPT ![s] = FALSE]
        /\ UNCHANGED <<paused, sact, cs, mv, pcs, hdr, meta, nf, due, got>>
        /\ Emit(Ev("publish", s, n, p, "", 0),
                [Quiet EXCEPT ![s] = <<Tok(IF dup THEN "BadName" ELSE "PubStart")>>])

Play(s, n) ==
  /\ (s \in FlvSess /\ role[s] = "idle") \/ (s \in Rtmp /\ role[s] = "conn")
  /\ UNCHANGED <<sact, pcs, hdr, meta, nf>>
  /\ IF Pubs(n) \cup Dups(n) = {} /\ ~IdleStreams
     THEN /\ role' = [role EXCEPT ![s] = "idle"] /\ name' = [name EXCEPT ![s] = 0]
          /\ UNCHANGED <<pri, paused, act, cs, mv, due, got>>
          /\ Emit(Ev("play", s, n, 0, "", 0), [Quiet EXCEPT ![s] = <<Tok("NotFound"), Tok("Closed")>>])
     ELSE /\ role' = [role EXCEPT ![s] = "play"] /\ name' = [name EXCEPT ![s] = n]
          /\ act' = [act EXCEPT ![s] = sact[n]]
          /\ paused' = [paused EXCEPT ![s] = FALSE]
          /\ cs' = [cs EXCEPT ![s] = None] /\ mv' = [mv EXCEPT ![s] = 0]
          /\ due' = [due EXCEPT ![s] = <<>>] /\ got' = [got EXCEPT ![s] = <<>>]
          /\ UNCHANGED <<pri>>
          /\ Emit(Ev("play", s, n, 0, "", 0),
                  [Quiet EXCEPT ![s] = (IF sact[n] THEN BeginToks ELSE <<>>) \o
                                           (IF PlayRestart THEN <<>> ELSE <<Tok("PlayStart")>>)])

(* a second publish or play, or one after the session was closed, is ignored *)
Ignored(s, a, n) ==
  /\ s \in Rtmp /\ role[s] \in {"pub", "dup", "play", "left"}
  /\ UNCHANGED <<role, name, pri, paused, act, sact, cs, mv, pcs, hdr, meta, nf, due, got>>
  /\ Emit(Ev(a, s, n, 0, "again", 0), Quiet)

(* One media message.  s may be any connected RTMP session; only a joined   *)
(* publisher has an effect, and only the top priority one reaches players.  *)
Frame(s, k) ==
  /\ s \in Rtmp /\ role[s] \in {"conn", "pub", "dup", "play", "left"}
  /\ nf < MaxFrames
  /\ nf' = IF (role[s] # "pub" \/ k = "x") /\ ~Gen THEN nf ELSE nf + 1
  /\ LET f    == nf + 1
         n    == name[s]
         aud  == k \in {"a", "ah"}
         c    == IF aud /\ ~Interleave THEN "a" ELSE "v"
         mand == k \in {"ah", "vh"}
         key  == k \in {"k", "hh"}
         hc   == IF aud THEN "a" ELSE "v"       \* whose header
         oc   == IF aud THEN "v" ELSE "a"
         h1   == IF k \in {"ah", "vh", "hh"} THEN [hdr[s] EXCEPT ![hc] = f] ELSE hdr[s]
         lh   == IF pcs[s][c] # 0 THEN pcs[s][c] ELSE f
         start == role[s] = "pub" /\ ~sact[n]
         begun == {q \in Players(n) : start /\ ~act[q]}
         csq(q) == IF q \in begun THEN None ELSE cs[q]
         rcv == {q \in Players(n) : Top(n, s) /\ ~paused[q]}
         sendM(q) == meta[s] # 0 /\ mv[q] # meta[s]
         wait(q) == \/ mand
                    \/ WaitVideo /\ aud /\ ~csq(q)["v"]
                    \/ WaitKey /\ ~key /\ (Interleave \/ ~aud)
         skip(q) == ~csq(q)[c] /\ wait(q)
         first(q) == ~csq(q)[c] /\ ~skip(q)
         hh   == h1[hc] # 0
         cohh == Interleave /\ h1[oc] # 0
         HTok(x) == [k |-> IF x = "a" THEN "ah" ELSE "vh", f |-> h1[x], t |-> lh]
         heads(q) == (IF hh THEN <<HTok(hc)>> ELSE <<>>) \o
                     (IF cohh THEN <<HTok(oc)>>
                      ELSE IF hh /\ WaitVideo /\ ~aud /\ ~csq(q)["a"] THEN <<[k |-> "d", f |-> 0, t |-> lh]>> ELSE <<>>)
         toks(q) == (IF q \in begun THEN BeginToks ELSE <<>>) \o
                    (IF q \notin rcv THEN <<>> ELSE
                       (IF sendM(q) THEN <<[k |-> "m", f |-> meta[s], t |-> 0]>> ELSE <<>>) \o
                       (IF skip(q) THEN <<>> ELSE
                          (IF first(q) THEN heads(q) ELSE <<>>) \o
                          <<[k |-> k, f |-> f, t |-> f]>>))
     IN IF k = "m"
        THEN /\ meta' = IF role[s] = "pub" THEN [meta EXCEPT ![s] = f] ELSE meta
             /\ UNCHANGED <<role, name, pri, paused, act, sact, cs, mv, pcs, hdr, due, got>>
             /\ Emit(Ev("frame", s, 0, 0, k, f), Quiet)
        ELSE IF role[s] # "pub" \/ k = "x"
        THEN /\ UNCHANGED <<role, name, pri, paused, act, sact, cs, mv, pcs, hdr, meta, due, got>>
             /\ Emit(Ev("frame", s, 0, 0, k, f), Quiet)
        ELSE /\ hdr' = [hdr EXCEPT ![s] = h1]
             /\ pcs' = [pcs EXCEPT ![s][c] = f]
             /\ sact' = [sact EXCEPT ![n] = TRUE]
             /\ act' = [q \in Sess |-> IF start /\ (q = s \/ q \in Players(n)) THEN TRUE ELSE act[q]]
             /\ cs' = [q \in Sess |-> IF q \in rcv /\ first(q) THEN [csq(q) EXCEPT ![c] = TRUE]
                                      ELSE IF q \in Players(n) THEN csq(q) ELSE cs[q]]
             /\ mv' = [q \in Sess |-> IF q \in rcv /\ sendM(q) THEN meta[s] ELSE mv[q]]
             /\ due' = [q \in Sess |-> (IF q \in begun THEN Marked(due[q]) ELSE due[q])
                                              \o (IF q \in rcv /\ ~mand THEN <<[f |-> f, k |-> k]>> ELSE <<>>)]
             /\ got' = [q \in Sess |-> IF q \in Players(n)
                                       THEN got[q] \o SelectSeq(toks(q), IsAV) ELSE got[q]]
             /\ UNCHANGED <<role, name, pri, paused, meta>>
             /\ Emit(Ev("frame", s, 0, 0, k, f), [q \in Sess |-> IF q \in Players(n) THEN toks(q) ELSE <<>>])

Pause(s) ==
  /\ s \in Rtmp /\ role[s] = "play"
  /\ paused' = [paused EXCEPT ![s] = TRUE] /\ act' = [act EXCEPT ![s] = FALSE]
  /\ cs' = [cs EXCEPT ![s] = IF act[s] THEN None ELSE @]
  /\ due' = [due EXCEPT ![s] = IF act'[s] # act[s] THEN Marked(@) ELSE @]
  /\ UNCHANGED <<role, name, pri, sact, mv, pcs, hdr, meta, nf, got>>
  /\ Emit(Ev("pause", s, 0, 0, "", 0),
          [Quiet EXCEPT ![s] = <<Tok("Paused")>> \o (IF act[s] THEN EofToks ELSE <<>>)])

Unpause(s) ==
  /\ s \in Rtmp /\ role[s] = "play"
  /\ paused' = [paused EXCEPT ![s] = FALSE] /\ act' = [act EXCEPT ![s] = TRUE]
  /\ cs' = [cs EXCEPT ![s] = IF ~act[s] THEN None ELSE @]
  /\ due' = [due EXCEPT ![s] = IF act'[s] # act[s] THEN Marked(@) ELSE @]
  /\ UNCHANGED <<role, name, pri, sact, mv, pcs, hdr, meta, nf, got>>
  /\ Emit(Ev("unpause", s, 0, 0, "", 0),
          [Quiet EXCEPT ![s] = <<Tok("Unpaused")>> \o (IF ~act[s] THEN BeginToks ELSE <<>>)])

(* deleteStream / closeStream (how = "leave") or loss of the connection     *)
(* (how = "drop").                                                          *)
Leave(s, how) ==
  /\ role[s] # "idle" /\ (how = "leave" => s \in Rtmp)
  /\ LET n == name[s]
         ispub == role[s] = "pub"
         stop  == ispub /\ act[s]
         pl    == IF role[s] \in {"conn", "left"} THEN {} ELSE Players(n) \ {s}
         eofs  == {q \in pl : stop /\ act[q]}
         kick  == IF ispub /\ ~IdleStreams THEN pl ELSE {}
         alone == Pubs(n) \ {s} = {} /\ pl = {}   \* nobody left in the live list
         next  == IF how = "drop" THEN "idle" ELSE IF role[s] = "conn" THEN "conn" ELSE "left"
         gone  == role[s] \in {"pub", "dup", "play"} /\ (Attached(n) \ {s}) \ kick = {}
         mine  == IF ispub THEN <<Tok("Unpublished")>>
                  ELSE IF role[s] = "play"
                  THEN (IF sact[n] /\ act[s] THEN EofToks ELSE <<>>) \o (IF alone /\ ~PlayRestart THEN <<Tok("PlayStop")>> ELSE <<>>)
                  ELSE <<>>
         toks(q) == (IF q \in eofs THEN EofToks ELSE <<>>) \o (IF q \in kick THEN <<Tok("Closed")>> ELSE <<>>)
         out   == [q \in Sess |-> IF q = s THEN (IF how = "leave" THEN mine ELSE <<>>) ELSE toks(q)]
         off(q) == q = s \/ q \in kick
     IN /\ role' = [q \in Sess |-> IF q = s THEN next ELSE IF q \in kick THEN "idle" ELSE role[q]]
        /\ name' = [q \in Sess |-> IF off(q) THEN 0 ELSE name[q]]
        /\ pri' = [q \in Sess |-> IF off(q) THEN 0 ELSE pri[q]]
        /\ paused' = [q \in Sess |-> IF off(q) THEN FALSE ELSE paused[q]]
        /\ act' = [q \in Sess |-> IF off(q) \/ q \in eofs THEN FALSE ELSE act[q]]
        /\ cs' = [q \in Sess |-> IF off(q) \/ q \in eofs THEN None ELSE cs[q]]
        /\ mv' = [q \in Sess |-> IF off(q) THEN 0 ELSE mv[q]]
        /\ pcs' = [pcs EXCEPT ![s] = Zero] /\ hdr' = [hdr EXCEPT ![s] = Zero] /\ meta' = [meta EXCEPT ![s] = 0]
        /\ sact' = IF n # 0 /\ (stop \/ gone) THEN [sact EXCEPT ![n] = FALSE] ELSE sact
        /\ due' = [q \in Sess |-> IF off(q) THEN <<>> ELSE IF q \in eofs THEN Marked(due[q]) ELSE due[q]]
        /\ got' = [q \in Sess |-> IF off(q) THEN <<>> ELSE got[q]]
        /\ UNCHANGED nf
        /\ Emit(Ev(how, s, 0, 0, "", 0), out)

Next ==
  \/ \E s \in Sess : Connect(s)
  \/ \E s \in Sess, n \in Names, p \in Pris : Publish(s, n, p)
  \/ \E s \in Sess, n \in Names : Play(s, n)
  \/ \E s \in Sess, n \in Names, a \in {"play", "publish"} : Ignored(s, a, n)
  \/ \E s \in Sess, k \in Kinds : Frame(s, k)
  \/ \E s \in Sess : Pause(s)
  \/ \E s \in Sess : Unpause(s)
  \/ \E s \in Sess, how \in {"leave", "drop"} : Leave(s, how)

Spec == Init /\ [][Next]_vars

(* state without ghosts and history *)
GView == <<role, name, pri, paused, act, sact, cs, mv, pcs, hdr, meta, nf>>

(* --------------------------- generation bias --------------------------- *)
(* Fewer dead ends: most steps are frames of joined publishers.             *)
GenNext ==
  \/ \E s \in Sess : Connect(s)
  \/ \E s \in Sess, n \in Names : (IdleStreams \/ Pubs(n) # {} \/ nf % 5 = 2) /\ Play(s, n)
  \/ \E s \in Sess, n \in Names, p \in Pris : Publish(s, n, p)
  \/ \E s \in Sess, k \in Kinds : role[s] = "pub" /\ Frame(s, k)
  \/ \E s \in Sess, k \in Kinds : role[s] = "pub" /\ k # "m" /\ Players(name[s]) # {} /\ Frame(s, k)
  \/ \E s \in Sess, k \in Kinds : role[s] = "pub" /\ k \in {"k", "i", "a"} /\ Top(name[s], s) /\ Players(name[s]) # {} /\ Frame(s, k)
  \/ \E s \in Sess, k \in Kinds : role[s] \in {"dup", "left", "play"} /\ nf % 3 = 0 /\ Frame(s, k)
  \/ \E s \in Sess : nf % 2 = 0 /\ (Pause(s) \/ Unpause(s))
  \/ \E s \in Sess : nf % 3 = 1 /\ Leave(s, "leave")
  \/ \E s \in Sess : nf % 4 # 2 /\ (role[s] \in {"left", "dup"} \/ nf % 4 = 1) /\ Leave(s, "drop")
  \/ \E s \in Sess, n \in Names : nf % 4 = 1 /\ (Ignored(s, "play", n) \/ Ignored(s, "publish", n))

----------------------------------------------------------------------------
(* Properties.                                                             *)
Sel(q) == [i \in 1..Len(q) |-> q[i].f]

\* C01: exactly the due frames, in order, once, with their own timestamp.
\* After every (re)start video begins at a key frame if WaitKey (with
\* Interleave: everything does), audio after the first video if WaitVideo.
RECURSIVE Wanted(_, _, _)
Wanted(q, v, a) ==   \* v, a: video / audio gate is open
  IF q = <<>> THEN <<>> ELSE
  LET e == Head(q)
      key == e.k \in {"k", "hh"}
      vid == e.k # "a"
  IN IF e.k = "-" THEN Wanted(Tail(q), ~WaitKey, ~WaitVideo /\ ~(WaitKey /\ Interleave))
     ELSE IF vid THEN LET o == v \/ key
                      IN (IF o /\ e.k # "hh" THEN <<e.f>> ELSE <<>>) \o Wanted(Tail(q), o, a \/ o)
     ELSE (IF a THEN <<e.f>> ELSE <<>>) \o Wanted(Tail(q), v, a)
WantedF(q) == Wanted(q, ~WaitKey, ~WaitVideo /\ ~(WaitKey /\ Interleave))
Exact == \A s \in Sess : role[s] = "play" => Sel(got[s]) = WantedF(due[s])
OwnTs == \A s \in Sess : \A i \in 1..Len(got[s]) : got[s][i].t = got[s][i].f
\* C02: priorities are unique among the accepted publishers of a name
UniquePri == \A a, b \in Sess : role[a] = "pub" /\ role[b] = "pub" /\ name[a] = name[b] /\ a # b => pri[a] # pri[b]
OneTop == \A n \in Names : Cardinality({s \in Sess : Top(n, s)}) <= 1 /\ (Pubs(n) # {} => \E s \in Sess : Top(n, s))
\* C03: an empty name is inactive; nobody is attached to a name while idle
CleanName == \A n \in Names : Attached(n) = {} => ~sact[n]
Rooted == \A s \in Sess : role[s] \in {"idle", "conn", "left"} => name[s] = 0
ActiveStream == \A n \in Names : sact[n] => Attached(n) # {}
OneStarter == \A n \in Names : Cardinality({s \in Pubs(n) : act[s]}) <= 1
=============================================================================
