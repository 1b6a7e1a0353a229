------------------------------- MODULE Notify -------------------------------
(***************************************************************************)
(* Callbacks about sessions and streams: a publish or play with a callback *)
(* configured waits for the answer, is joined or refused by it, and ends   *)
(* with a done callback; the meta callback tells of codec headers, the     *)
(* stream callback of a stream's first and last session.                   *)
(*                                                                         *)
(* A step emits the set of requests <<call, act, s>> it causes (a bag: no  *)
(* request twice), the session whose number they carry, what each player   *)
(* receives, which sessions are told what and which end.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slots, FlvSlots, Names,
          PubCb, PlayCb, MetaCb, StreamCb,   \* stages of each callback: a subset of {"done","update"}; {"none"}: not configured
          Ignore,                            \* failed callbacks count as success
          Once,                              \* only the first header of a stream is told
          Short,                             \* callbacks time out quickly: nothing else happens while one is pending
          Codes, MaxOps, Gen
VARIABLES st,       \* idle, pend (waits for the answer), pub, dup (publisher without the name), play
          kind,     \* pub, play
          at,       \* name
          meta,     \* none, pend, on, off
          stream,   \* of each name: none, pend, on, off (answered with an error)
          told,     \* a header of this stream has been told
          nops, log
vars == <<st, kind, at, meta, stream, told, nops, log>>
View == <<st, kind, at, meta, stream, told>>

Cb(k) == IF k = "publish" THEN PubCb ELSE PlayCb
Has(cb) == "none" \notin cb
Init == /\ st = [s \in Slots |-> "idle"] /\ kind = [s \in Slots |-> ""] /\ at = [s \in Slots |-> 0]
        /\ meta = [s \in Slots |-> "none"] /\ stream = [n \in Names |-> "none"] /\ told = [n \in Names |-> FALSE]
        /\ nops = 0 /\ log = <<>>

Here == {s \in Slots : st[s] # "idle"}
On(n) == {s \in Here : at[s] = n}
Owner(n) == {s \in On(n) : st[s] = "pub"}
Players(n) == {s \in On(n) : st[s] = "play"}
Accepts(c) == c \in 200..300 \/ (c = -1 /\ Ignore)

Emit(e) == /\ nops' = nops + 1
           /\ IF Gen THEN log' = Append(log, e @@ [reg |-> st', upd |-> {<<kind'[s], s>> : s \in {x \in Slots : st'[x] \in {"pub", "dup", "play"} /\ "update" \in Cb(kind'[x])}}
                                                              \cup {<<"meta", s>> : s \in {x \in Slots : meta'[x] = "on" /\ "update" \in MetaCb}}
                                                              \cup {<<"stream", n>> : n \in {x \in Names : stream'[x] = "on" /\ "update" \in StreamCb}}])
              ELSE UNCHANGED log
Quiet == Short => \A s \in Slots : st[s] # "pend" /\ meta[s] # "pend"

(* what an accepted session becomes                                          *)
Joins(s, k, n) == IF k = "play" THEN "play" ELSE IF Owner(n) # {} THEN "dup" ELSE "pub"

Come(s, k, n) ==
  /\ Quiet /\ st[s] = "idle"
  /\ LET now == IF Has(Cb(k)) THEN "pend" ELSE Joins(s, k, n)
         first == On(n) = {} /\ Has(StreamCb)
     IN /\ st' = [st EXCEPT ![s] = now]
        /\ kind' = [kind EXCEPT ![s] = k] /\ at' = [at EXCEPT ![s] = n]
        /\ stream' = IF first THEN [stream EXCEPT ![n] = "pend"] ELSE stream
        /\ UNCHANGED <<meta, told>>
        /\ Emit([a |-> "come", s |-> s, k |-> k, n |-> n,
                 req |-> (IF Has(Cb(k)) THEN {<<k, "start", s>>} ELSE {}) \cup (IF first THEN {<<"stream", "start", s>>} ELSE {})])

(* requests which tell the end of session s                                   *)
Dones(s) == (IF "done" \in Cb(kind[s]) THEN {<<kind[s], "done", s>>} ELSE {})
            \cup (IF meta[s] # "none" /\ "done" \in MetaCb THEN {<<"meta", "done", s>>} ELSE {})
            \cup (IF On(at[s]) = {s} /\ "done" \in StreamCb THEN {<<"stream", "done", s>>} ELSE {})
Go(s) == /\ st' = [st EXCEPT ![s] = "idle"] /\ kind' = [kind EXCEPT ![s] = ""] /\ at' = [at EXCEPT ![s] = 0]
         /\ meta' = [meta EXCEPT ![s] = "none"]
         /\ IF On(at[s]) = {s} THEN stream' = [stream EXCEPT ![at[s]] = "none"] /\ told' = [told EXCEPT ![at[s]] = FALSE]
            ELSE UNCHANGED <<stream, told>>

(* the answer to a start callback; -1: none, broken or late                   *)
Answer(s, c) ==
  /\ st[s] = "pend" /\ (Short => c = -1)
  /\ IF Accepts(c)
     THEN /\ st' = [st EXCEPT ![s] = Joins(s, kind[s], at[s])] /\ UNCHANGED <<kind, at, meta, stream, told>>
          /\ Emit([a |-> "answer", s |-> s, code |-> c, out |-> FALSE, tell |-> Joins(s, kind[s], at[s]), req |-> {}])
     ELSE /\ Go(s)
          /\ Emit([a |-> "answer", s |-> s, code |-> c, out |-> TRUE, tell |-> "refused", k |-> kind[s], req |-> Dones(s)])

Leave(s) ==
  /\ Quiet /\ st[s] # "idle" /\ Go(s)
  /\ Emit([a |-> "leave", s |-> s, req |-> Dones(s)])

(* an answer to a callback whose session is gone (or which has been replaced) *)
Stale(c) ==
  /\ Quiet /\ UNCHANGED <<st, kind, at, meta, stream, told>>
  /\ Emit([a |-> "stale", code |-> c, req |-> {}])

Frame(s) ==
  /\ Quiet /\ kind[s] = "publish" /\ UNCHANGED <<st, kind, at, meta, stream, told>>
  /\ Emit([a |-> "frame", s |-> s, to |-> IF st[s] = "pub" THEN Players(at[s]) ELSE {}, req |-> {}])

(* a codec header: the last one told is over, the new one begins              *)
Header(s) ==
  /\ Quiet /\ kind[s] = "publish" /\ Has(MetaCb)
  /\ IF Once /\ told[at[s]] THEN UNCHANGED <<st, kind, at, meta, stream, told>> /\ Emit([a |-> "header", s |-> s, req |-> {}])
     ELSE /\ told' = [told EXCEPT ![at[s]] = TRUE] /\ meta' = [meta EXCEPT ![s] = "pend"]
          /\ UNCHANGED <<st, kind, at, stream>>
          /\ Emit([a |-> "header", s |-> s, req |-> {<<"meta", "start", s>>} \cup (IF meta[s] # "none" /\ "done" \in MetaCb THEN {<<"meta", "done", s>>} ELSE {})])
MetaAnswer(s, c) ==
  /\ meta[s] = "pend" /\ (Short => c = -1)
  /\ IF Accepts(c)
     THEN /\ meta' = [meta EXCEPT ![s] = IF c = -1 THEN "off" ELSE "on"] /\ UNCHANGED <<st, kind, at, stream, told>>
          /\ Emit([a |-> "metaanswer", s |-> s, code |-> c, out |-> FALSE, req |-> {}])
     ELSE /\ Go(s) /\ Emit([a |-> "metaanswer", s |-> s, code |-> c, out |-> TRUE, req |-> Dones(s)])
StreamAnswer(n, c) ==
  /\ Quiet /\ stream[n] = "pend"
  /\ stream' = [stream EXCEPT ![n] = IF c = 200 THEN "on" ELSE "off"] /\ UNCHANGED <<st, kind, at, meta, told>>
  /\ Emit([a |-> "streamanswer", n |-> n, code |-> c, req |-> {}])
(* the update interval passes for all                                         *)
Tick == /\ Quiet /\ UNCHANGED <<st, kind, at, meta, stream, told>> /\ Emit([a |-> "tick", req |-> {}])

Act(s) == \/ \E k \in {"publish", "play"}, n \in Names : (k = "publish" => s \notin FlvSlots) /\ Come(s, k, n)
          \/ \E c \in Codes : Answer(s, c) \/ MetaAnswer(s, c)
          \/ Leave(s) \/ Frame(s) \/ Header(s)
Next == nops < MaxOps /\ (\/ \E s \in Slots : Act(s)
                          \/ \E n \in Names, c \in Codes : StreamAnswer(n, c))
Spec == Init /\ [][Next]_vars

Rnd(S) == RandomElement({x \in S : nops >= 0})
Code == IF Rnd(1..4) # 1 THEN 200 ELSE Rnd(Codes)
GenNext ==
  \/ \E s \in Slots : LET k == IF s \in FlvSlots THEN "play" ELSE Rnd({"publish", "play"}) IN Come(s, k, Rnd(Names))
  \/ \E s \in Slots : nops % 4 = 0 /\ Leave(s)
  \/ \E s \in Slots : Answer(s, IF Short THEN -1 ELSE Code)
  \/ \E s \in Slots : MetaAnswer(s, IF Short THEN -1 ELSE Code)
  \/ \E n \in Names : StreamAnswer(n, Code)
  \/ \E s \in Slots : Frame(s)
  \/ \E s \in Slots : nops % 3 = 0 /\ Header(s)
  \/ nops % 6 = 5 /\ Stale(Rnd(Codes))
  \/ nops % 8 = 7 /\ Tick
-----------------------------------------------------------------------------
OneOwner == \A n \in Names : Cardinality(Owner(n)) <= 1
(* nobody is joined without having been accepted; nobody gets media unjoined  *)
Known == \A s \in Slots : st[s] = "idle" <=> at[s] = 0
Streams == Has(StreamCb) => \A n \in Names : stream[n] = "none" <=> On(n) = {}
Gate == [][\A s \in Slots : st'[s] \in {"pub", "dup", "play"} /\ st[s] \notin {"pub", "dup", "play"} /\ Has(Cb(kind'[s])) =>
             st[s] = "pend" /\ \E c \in Codes : Accepts(c)]_vars
(* a session ends by leaving or by a refusal only, alone                       *)
Alone == [][Cardinality({s \in Slots : st[s] # "idle" /\ st'[s] = "idle"}) <= 1]_vars
Promoted == [][\A s \in Slots : st[s] = "dup" => st'[s] \in {"dup", "idle"}]_vars
=============================================================================
