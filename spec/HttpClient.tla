----------------------------- MODULE HttpClient -----------------------------
(* Requests of the built-in HTTP client to several servers, the connections  *)
(* they use and the pool of idle connections.                                *)
EXTENDS HttpResp, Integers, SequencesExt

CONSTANTS N, Reqs, Ups,      \* requests at the same time; servers
          MaxIdle,        \* connections kept
          Statuses, Units, Gen, MaxOps
VARIABLES rq, pool, fresh, open, nops, log
cvars == <<rq, pool, fresh, open, nops, log>>
CView == <<rq, pool, open>>

Unused == [up |-> 0, conn |-> 0, sh |-> [none |-> TRUE], pos |-> 0, res |-> [hdr |-> FALSE, body |-> 0, end |-> "idle"], held |-> FALSE, short |-> FALSE]

CInit == /\ rq = [r \in Reqs |-> Unused] /\ pool = <<>> /\ fresh = 1 /\ open = {} /\ nops = 0 /\ log = <<>>

(* the caller's view of all requests, the open connections and the idle ones  *)
CEmit(e) == /\ nops' = nops + 1
            /\ IF Gen THEN log' = Append(log, e @@ [res |-> [r \in Reqs |-> rq'[r].res], open |-> open', idle |-> Len(pool')])
               ELSE UNCHANGED log

Busy(r) == rq[r].held          \* its connection is still in use
Free(r) == ~Busy(r)

(* pool: the last one put back to the same server is taken first              *)
Idle(u) == {i \in DOMAIN pool : pool[i].up = u}
First(u) == CHOOSE i \in Idle(u) : \A j \in Idle(u) : i <= j

Start(r, u, sh, short) ==
  /\ Free(r)
  /\ LET c == IF Idle(u) # {} THEN pool[First(u)].conn ELSE fresh
     IN /\ rq' = [rq EXCEPT ![r] = [up |-> u, conn |-> c, sh |-> sh, pos |-> 0, held |-> TRUE, short |-> short,
                                    res |-> [hdr |-> FALSE, body |-> 0, end |-> ""]]]
        /\ pool' = IF Idle(u) # {} THEN RemoveAt(pool, First(u)) ELSE pool
        /\ fresh' = IF Idle(u) # {} THEN fresh ELSE fresh + 1
        /\ open' = open \cup {c}
        /\ CEmit([a |-> "start", r |-> r, up |-> u, sh |-> sh, short |-> short, conn |-> c])

(* a server which nobody runs                                                 *)
Refused(r, how) ==
  /\ Free(r) /\ rq' = [rq EXCEPT ![r] = [Unused EXCEPT !.res = [hdr |-> FALSE, body |-> 0, end |-> "fail"]]]
  /\ UNCHANGED <<pool, fresh, open>> /\ CEmit([a |-> "refused", r |-> r, how |-> how])

(* the end of a response: the connection is kept or closed                    *)
After(r, pos, fin) ==
  LET q == rq[r]
      res == Result(q.sh, pos, fin)
      over == res.end # ""
      keep == Reusable(q.sh, pos, fin) /\ Len(pool) < MaxIdle
      was == q.res.end
  IN /\ rq' = [rq EXCEPT ![r].pos = pos, ![r].held = ~over,
                         ![r].res = IF was = "" THEN res ELSE @]
     /\ pool' = IF over /\ keep THEN <<[conn |-> q.conn, up |-> q.up]>> \o pool ELSE pool
     /\ open' = IF over /\ ~keep THEN open \ {q.conn} ELSE open

Sendable(r, k) ==
  LET t == Tokens(rq[r].sh)
      p == rq[r].pos + k
  IN /\ Busy(r) /\ p <= Len(t)
     /\ rq[r].short => \A i \in 1..p : t[i] \in {"S", "H"}
     (* extra bytes come with the last ones of the response                   *)
     /\ p = Len(t) - 1 => t[Len(t)] # "x"
(* k tokens; fin: and the end of the connection at once                       *)
Reply(r, k, fin) ==
  /\ Sendable(r, k) /\ fin \in {"", "fin"} /\ (k > 0 \/ fin # "") /\ (rq[r].short => fin = "")
  /\ After(r, rq[r].pos + k, fin) /\ UNCHANGED fresh
  /\ CEmit([a |-> "reply", r |-> r, k |-> k, fin |-> fin])
Reset(r) ==
  /\ Busy(r) /\ ~rq[r].short /\ After(r, rq[r].pos, "rst") /\ UNCHANGED fresh
  /\ CEmit([a |-> "reset", r |-> r])
(* the header does not come in time                                           *)
Stall(r) ==
  /\ Busy(r) /\ rq[r].short
  /\ rq' = [rq EXCEPT ![r].held = FALSE, ![r].res.end = IF @ = "" THEN "fail" ELSE @]
  /\ open' = open \ {rq[r].conn} /\ UNCHANGED <<pool, fresh>>
  /\ CEmit([a |-> "stall", r |-> r])
(* the caller gives the request up, or does not want its answer any more      *)
Abort(r) ==
  /\ Busy(r) /\ rq[r].res.end = "" /\ ~rq[r].short
  /\ rq' = [rq EXCEPT ![r].held = FALSE, ![r].res.end = "abort"]
  /\ open' = open \ {rq[r].conn} /\ UNCHANGED <<pool, fresh>>
  /\ CEmit([a |-> "abort", r |-> r])
Detach(r) ==
  /\ Busy(r) /\ rq[r].res.end = ""
  /\ rq' = [rq EXCEPT ![r].res.end = "detach"] /\ UNCHANGED <<pool, fresh, open>>
  /\ CEmit([a |-> "detach", r |-> r])
(* the server closes an idle connection, or sends what nobody asked for       *)
Idled(i, how) ==
  /\ pool' = RemoveAt(pool, i) /\ open' = open \ {pool[i].conn} /\ UNCHANGED <<rq, fresh>>
  /\ CEmit([a |-> "idled", conn |-> pool[i].conn, how |-> how])

Quiet == \A r \in Reqs : Busy(r) => ~rq[r].short
Some == {sh \in Shapes(N) : ~sh.head /\ sh.v = 11 /\ sh.bad \in {"", "chunk"} /\ (sh.status = 204 => sh.delim = "len")
                            /\ sh.conn \in {"none", "close"} /\ (sh.conn = "close" => sh.delim = "len" /\ ~sh.extra)}
CNext == /\ nops < MaxOps
         /\ \/ \E r \in Reqs : Stall(r)
            \/ \E r \in Reqs, k \in 0..3, fin \in {"", "fin"} : rq[r].short /\ Reply(r, k, fin)
            \/ \E r \in Reqs : rq[r].short /\ Detach(r)
            \/ Quiet /\ \/ \E r \in Reqs, u \in Ups, sh \in Some, b \in BOOLEAN : Start(r, u, sh, b)
                        \/ \E r \in Reqs : Refused(r, "refused") \/ Reset(r) \/ Abort(r) \/ Detach(r)
                        \/ \E r \in Reqs, k \in 0..3, fin \in {"", "fin"} : Reply(r, k, fin)
                        \/ \E i \in DOMAIN pool : Idled(i, "close")
CSpec == CInit /\ [][CNext]_cvars

(* generation: shapes of all kinds, whole responses more often than not       *)
Rnd(S) == RandomElement({x \in S : nops >= 0})
RShape ==
  LET delim == Rnd({"len", "len2", "chunked", "chunked2", "close"})
      d == CASE delim = "len2" -> "len" [] delim = "chunked2" -> "chunked" [] OTHER -> delim
      n == Rnd(0..Units)
      head == Rnd(1..8) = 1
      status == Rnd(Statuses)
      e == head \/ status \in {204, 304}
      bad == Rnd({"", "1", "2", "3", "4", "5", "6", "7", "status", "header", "length", "big", "chunk"})
      b == IF bad = "chunk" /\ (d # "chunked" \/ e \/ n = 0) THEN "" ELSE IF bad \in {"status", "header", "length", "big", "chunk"} THEN bad ELSE ""
  IN [head |-> head, v |-> Rnd({10, 11, 12, 13}), status |-> status, conn |-> Rnd({"none", "none2", "close", "keep"}),
      delim |-> d, n |-> IF e THEN 0 ELSE n, bad |-> b, extra |-> b = "" /\ (d # "close" \/ e) /\ Rnd(1..8) = 1]
Fix(sh) == [sh EXCEPT !.v = IF @ = 10 THEN 10 ELSE 11, !.conn = IF @ = "none2" THEN "none" ELSE @,
                      !.bad = @]
CGenNext ==
  \/ \E r \in Reqs : Stall(r)
  \/ \E r \in Reqs : rq[r].short /\ nops % 3 = 0 /\ Detach(r)
  \/ \E r \in Reqs, k \in 1..3 : rq[r].short /\ Reply(r, k, "")
  \/ /\ Quiet
     /\ \/ \E r \in Reqs : Start(r, Rnd(Ups), Fix(RShape), Rnd(1..12) = 1)
        \/ \E r \in Reqs : Busy(r) /\ Reply(r, Rnd(0..(Len(Tokens(rq[r].sh)) - rq[r].pos)), IF Rnd(1..4) = 1 THEN "fin" ELSE "")
        \/ \E r \in Reqs : Busy(r) /\ Reply(r, Len(Tokens(rq[r].sh)) - rq[r].pos, IF Rnd(1..4) = 1 THEN "fin" ELSE "")
        \/ \E r \in Reqs : nops % 7 = 3 /\ Reset(r)
        \/ \E r \in Reqs : nops % 7 = 5 /\ (Abort(r) \/ Detach(r))
        \/ \E r \in Reqs : nops % 11 = 7 /\ Refused(r, Rnd({"refused", "full"}))
        \/ \E i \in DOMAIN pool : nops % 5 = 1 /\ Idled(i, Rnd({"close", "junk", "reset"}))
-----------------------------------------------------------------------------
Used(c) == {r \in Reqs : Busy(r) /\ rq[r].conn = c} 
(* a connection serves one request at a time, or is idle once, or is closed   *)
Alone == \A c \in open : Cardinality(Used(c)) + Cardinality({i \in DOMAIN pool : pool[i].conn = c}) = 1
Closed == \A r \in Reqs : Busy(r) => rq[r].conn \in open
Bounded == Len(pool) <= MaxIdle
Final == [][\A r \in Reqs : rq[r].res.end \notin {"", "idle"} /\ rq'[r].res # rq[r].res => Free(r)]_cvars
=============================================================================
