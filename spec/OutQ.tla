-------------------------------- MODULE OutQ --------------------------------
(***************************************************************************)
(* The bounded queue of a player and how it empties (ngx_rtmp_send_message *)
(* and ngx_rtmp_send in ngx_rtmp_handler.c, ngx_rtmp_prepare_merge_frame). *)
(* Messages leave in batches; a batch is replaced when the socket took all *)
(* of it, which a single large message prevents while nobody reads.        *)
(* A player y has y.q (queue), y.inf (handed to the socket, not yet read), *)
(* y.out (read in this step), y.stall (does not read), y.kick (a write was *)
(* asked for).                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Q,         \* out_queue
          M,         \* merge_frame
          Buf, Cork, \* buffer (off: FALSE), out_cork
          FlvP       \* players over HTTP-FLV

Big(t) == t.k \in {"a", "ah", "k", "i", "vh", "hh"}

Fits(y, prio) == Len(y.q) + 1 + (prio * Q) \div 4 < Q
Put(y, t, prio) == \* only when it fits
  [y EXCEPT !.q = Append(@, t), !.kick = @ \/ ~(prio > 0 /\ Buf /\ Len(y.q) + 1 < Cork)]

Blocked(y) == y.stall /\ \E i \in 1..Len(y.inf) : Big(y.inf[i])
\* control messages do not exist over HTTP-FLV: they are removed where they
\* come first in the queue
RECURSIVE Lead(_, _)
Lead(p, q) == IF q # <<>> /\ p \in FlvP /\ Head(q).k \in {"Begin", "Eof"} THEN Lead(p, Tail(q)) ELSE q
RECURSIVE Batch(_, _, _, _)
Batch(p, q, n, b) == LET r == Lead(p, q) IN
  IF n = 0 \/ q = <<>> \/ r = <<>> THEN [q |-> IF n = 0 THEN q ELSE r, b |-> b]
  ELSE Batch(p, Tail(r), n - 1, Append(b, Head(r)))

\* what the server writes on its own
RECURSIVE Pump(_, _)
Pump(p, y) ==
  IF y.q = <<>> \/ \E i \in 1..Len(y.inf) : Big(y.inf[i]) THEN y
  ELSE LET x == Batch(p, y.q, M, <<>>) IN Pump(p, [y EXCEPT !.q = x.q, !.inf = @ \o x.b])
\* what a player reads which reads everything
RECURSIVE Drain(_, _)
Drain(p, y) ==
  LET z == [y EXCEPT !.out = @ \o y.inf, !.inf = <<>>]
  IN IF z.q = <<>> THEN z
     ELSE LET x == Batch(p, z.q, M, <<>>) IN Drain(p, [z EXCEPT !.q = x.q, !.inf = x.b])
\* what a blocked player reads when it takes n large messages, and the small
\* ones after them
RECURSIVE Take(_, _, _)
Take(p, y, n) ==
  IF y.inf = <<>> THEN (IF y.q = <<>> THEN y
                        ELSE LET x == Batch(p, y.q, M, <<>>) IN Take(p, [y EXCEPT !.q = x.q, !.inf = x.b], n))
  ELSE IF Big(Head(y.inf)) /\ n = 0 THEN y
  ELSE Take(p, [y EXCEPT !.out = Append(@, Head(y.inf)), !.inf = Tail(@)], IF Big(Head(y.inf)) THEN n - 1 ELSE n)
=============================================================================
