-------------------------------- MODULE Mux --------------------------------
(***************************************************************************)
(* The outbound side of RTMP (C06): one stream of messages, queued for     *)
(* several players.  Each player has its own announced chunk size, its own *)
(* play_time_fix and merge_frame.  The server prepares up to Merge queued  *)
(* messages into a chain, writes as much of it as the socket takes, and    *)
(* only prepares more once the chain is written.  The player decodes what  *)
(* it reads by the rules of RTMP, knowing nothing but its configuration.   *)
(*                                                                         *)
(* A chunk on the wire is a header unit, an optional extended timestamp    *)
(* unit and payload units; the socket holds at most Cap units.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS P, Chunk, Fix, Merge, Lens, Times, Types, EXT, MaxMsgs, Cap, Gen

VARIABLES msgs,      \* the messages of the stream, in order
          pos,       \* per player: number of messages prepared
          chain,     \* per player: units prepared but not written
          sock,      \* per player: units written but not read
          dec,       \* per player: decoder
          got,       \* per player: number of messages decoded, all as sent so far
          bad, log

vars == <<msgs, pos, chain, sock, dec, got, bad, log>>
Emit(e) == IF Gen THEN log' = Append(log, e) ELSE UNCHANGED log

D0 == [left |-> 0, room |-> 0, ext |-> FALSE, want |-> "h", id |-> 0, ts |-> 0, len |-> 0, pure |-> TRUE, ty |-> ""]
Init == /\ msgs = <<>> /\ pos = [p \in P |-> 0] /\ chain = [p \in P |-> <<>>] /\ sock = [p \in P |-> <<>>]
        /\ dec = [p \in P |-> D0] /\ got = [p \in P |-> 0] /\ bad = FALSE /\ log = <<>>

Min(a, b) == IF a < b THEN a ELSE b
Rep(x, n) == [i \in 1..n |-> x]

(* the chunks of a message for a player: the first with a full header, the  *)
(* others with a type 3 header, repeating the extended field with Fix       *)
RECURSIVE Cut(_, _, _)
Cut(p, m, off) ==
  LET n   == Min(Chunk[p], m.len - off)
      x   == m.ts >= EXT /\ (off = 0 \/ Fix[p])
      hdr == [u |-> "h", fmt |-> IF off = 0 THEN 0 ELSE 3, ts |-> IF m.ts >= EXT THEN EXT ELSE m.ts, len |-> m.len, ty |-> m.ty]
      one == <<hdr>> \o (IF x THEN <<[u |-> "x", ts |-> m.ts]>> ELSE <<>>) \o Rep([u |-> "p", id |-> m.id], n)
  IN IF off + n >= m.len THEN one ELSE one \o Cut(p, m, off + n)

RECURSIVE Cat(_, _, _)
Cat(p, a, b) == IF a > b THEN <<>> ELSE Cut(p, msgs[a], 0) \o Cat(p, a + 1, b)

Msg(len, ts, ty) ==
  /\ Len(msgs) < MaxMsgs
  /\ msgs' = Append(msgs, [id |-> Len(msgs) + 1, len |-> len, ts |-> ts, ty |-> ty])
  /\ Emit([a |-> "msg", len |-> len, ts |-> ts, ty |-> ty])
  /\ UNCHANGED <<pos, chain, sock, dec, got, bad>>

Prepare(p) ==
  /\ chain[p] = <<>> /\ pos[p] < Len(msgs)
  /\ LET b == Min(Len(msgs), pos[p] + Merge[p])
     IN /\ chain' = [chain EXCEPT ![p] = Cat(p, pos[p] + 1, b)]
        /\ pos' = [pos EXCEPT ![p] = b]
  /\ UNCHANGED <<msgs, sock, dec, got, bad, log>>

\* the socket takes any part of the chain it has room for
Write(p, n) ==
  /\ n > 0 /\ n <= Len(chain[p]) /\ Len(sock[p]) + n <= Cap
  /\ sock' = [sock EXCEPT ![p] = @ \o SubSeq(chain[p], 1, n)]
  /\ chain' = [chain EXCEPT ![p] = SubSeq(@, n + 1, Len(@))]
  /\ UNCHANGED <<msgs, pos, dec, got, bad, log>>

(* --------------------------- the player's decoder ------------------------ *)
Step(p, d, u) ==   \* -> [d, done, ok]
  LET fin(e) == IF e.left = 0 THEN [d |-> [e EXCEPT !.want = "h"], done |-> TRUE, ok |-> TRUE]
                ELSE [d |-> IF e.room = 0 THEN [e EXCEPT !.want = "h"] ELSE e, done |-> FALSE, ok |-> TRUE]
  IN CASE d.want # u.u -> [d |-> d, done |-> FALSE, ok |-> FALSE]
     [] u.u = "h" /\ u.fmt = 0 ->
          IF d.left # 0 THEN [d |-> d, done |-> FALSE, ok |-> FALSE]
          ELSE [d |-> [left |-> u.len, room |-> Min(Chunk[p], u.len), ext |-> u.ts = EXT, want |-> IF u.ts = EXT THEN "x" ELSE "p",
                       id |-> 0, ts |-> u.ts, len |-> u.len, pure |-> TRUE, ty |-> u.ty], done |-> FALSE, ok |-> TRUE]
     [] u.u = "h" ->
          IF d.left = 0 THEN [d |-> d, done |-> FALSE, ok |-> FALSE]
          ELSE [d |-> [d EXCEPT !.room = Min(Chunk[p], d.left), !.want = IF d.ext /\ Fix[p] THEN "x" ELSE "p"], done |-> FALSE, ok |-> TRUE]
     [] u.u = "x" -> [d |-> [d EXCEPT !.ts = u.ts, !.want = "p"], done |-> FALSE, ok |-> TRUE]
     [] OTHER -> fin([d EXCEPT !.left = @ - 1, !.room = @ - 1, !.id = IF d.left = d.len THEN u.id ELSE @,
                               !.pure = @ /\ (d.left = d.len \/ u.id = d.id)])

RECURSIVE Run(_, _, _)
Run(p, s, us) ==   \* s: [d, n, ok]
  IF us = <<>> THEN s
  ELSE LET r == Step(p, s.d, Head(us))
           m == msgs[s.n + 1]
           good == r.ok /\ (r.done => s.n < Len(msgs) /\ r.d.pure /\ r.d.id = m.id /\ r.d.ts = m.ts /\ r.d.len = m.len /\ r.d.ty = m.ty)
       IN Run(p, [d |-> r.d, n |-> IF r.done THEN s.n + 1 ELSE s.n, ok |-> s.ok /\ good], Tail(us))

Read(p, n) ==
  /\ n > 0 /\ n <= Len(sock[p])
  /\ LET r == Run(p, [d |-> dec[p], n |-> got[p], ok |-> TRUE], SubSeq(sock[p], 1, n))
     IN /\ dec' = [dec EXCEPT ![p] = r.d] /\ got' = [got EXCEPT ![p] = r.n] /\ bad' = (bad \/ ~r.ok)
  /\ sock' = [sock EXCEPT ![p] = SubSeq(@, n + 1, Len(@))]
  /\ Emit([a |-> "read", p |-> p, n |-> n])
  /\ UNCHANGED <<msgs, pos, chain>>

Next == \/ \E len \in Lens, ts \in Times, ty \in Types : Msg(len, ts, ty)
        \/ \E p \in P : Prepare(p) \/ (\E n \in 1..Cap : Write(p, n) \/ Read(p, n))
Spec == Init /\ [][Next]_vars

R(S) == {RandomElement({x \in S : Len(msgs) >= 0})}
GenNext == \/ \E i \in 1..3 : \E len \in R(Lens), ts \in R(Times), ty \in R(Types) : Msg(len, ts, ty)
           \/ \E p \in P : Prepare(p)
           \/ \E p \in P : \E n \in {Min(Len(chain[p]), Cap - Len(sock[p]))} : Write(p, n)
           \/ \E p \in R(P) : \E n \in R(1..Cap) : Read(p, n)

(* ------------------------------ properties ------------------------------- *)
Decodes == ~bad
\* nothing is left behind: what is prepared and not decoded is still under way
Nothing == \A p \in P : (chain[p] = <<>> /\ sock[p] = <<>>) => got[p] = pos[p] /\ dec[p].left = 0
=============================================================================
