------------------------------- MODULE Chunk -------------------------------
(***************************************************************************)
(* The inbound RTMP chunk stream (C05).  The environment is a peer which   *)
(* sends messages over several chunk streams in every legal way: any       *)
(* header format that says the truth, any interleaving, chunk size changes *)
(* in the middle of messages, aborts, extended timestamps.  The decoder is *)
(* the algorithm of ngx_rtmp_recv (per stream dtime, ext, last_extimestamp, *)
(* len).  The property: what the decoder hands on is what the peer sent.   *)
(*                                                                         *)
(* Lengths and chunk sizes are in units (replay scales them); a timestamp  *)
(* field that is EXT or more needs the extended field.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Cs, Lens, ChunkSizes, Types, Steps, EXT, MOD, MaxMsgs,
          TimeFix,    \* publish_time_fix: extended field repeated in type 3 chunks
          Aborts, Gen

VARIABLES enc,      \* encoder, per chunk stream
          csize,    \* the peer's chunk size
          clock,    \* last timestamp used
          nmsg, done,
          dec, dsize, out, bad,
          log

vars == <<enc, csize, clock, nmsg, done, dec, dsize, out, bad, log>>

E0 == [ts |-> 0, delta |-> 0, len |-> 0, type |-> "", ext |-> 0, used |-> FALSE, need0 |-> TRUE, z |-> FALSE,
       left |-> 0, id |-> 0, sub |-> 0]
D0 == [ts |-> 0, dtime |-> 0, mlen |-> 0, got |-> 0, type |-> "", ext |-> FALSE, lastext |-> 0, ids |-> {}]
NoExt == -1

Init == /\ enc = [c \in Cs |-> E0] /\ csize \in ChunkSizes /\ clock = 0 /\ nmsg = 0 /\ done = <<>>
        /\ dec = [c \in Cs |-> D0] /\ dsize = csize /\ out = <<>> /\ bad = FALSE /\ log = <<>>

Min(a, b) == IF a < b THEN a ELSE b
Emit(e) == IF Gen THEN log' = Append(log, e) ELSE UNCHANGED log

(* done, out: what the last chunk completed, for the peer and the decoder;  *)
(* a message handed on; an aggregate is handed on as its two parts *)
Parts(ty, ts, id, sub) == IF ty = "g" THEN <<[id |-> id, part |-> 1, ts |-> ts], [id |-> id, part |-> 2, ts |-> (ts + sub) % MOD]>>
                          ELSE <<[id |-> id, part |-> 0, ts |-> ts]>>

(* ------------------------- the decoder: one chunk ------------------------ *)
\* w: [cs, fmt, tsf, extf, len, type, n (payload units), id, sub]
Decode(w) ==
  LET st   == dec[w.cs]
      hasx == IF w.fmt <= 2 THEN w.tsf >= EXT ELSE st.ext
      mlen == IF w.fmt <= 1 THEN w.len ELSE st.mlen
      type == IF w.fmt <= 1 THEN w.type ELSE st.type
      odd  == hasx /\ w.fmt = 3 /\ w.extf # st.lastext     \* taken for payload
      ext  == hasx /\ ~odd
      tsv  == IF ext THEN w.extf ELSE IF w.fmt <= 2 THEN w.tsf ELSE st.dtime
      new  == st.got = 0
      dt   == IF ~new THEN st.dtime ELSE IF w.fmt = 0 THEN 0 ELSE tsv
      ts0  == IF new /\ w.fmt = 0 THEN tsv ELSE st.ts
      size == Min(dsize, mlen - st.got)
      full == st.got + size = mlen
      ts1  == IF full THEN (ts0 + dt) % MOD ELSE ts0
      ids  == (IF new THEN {} ELSE st.ids) \cup {w.id}
  IN /\ bad' = (bad \/ size # w.n \/ (odd /\ w.extf # NoExt) \/ (~hasx /\ w.extf # NoExt))
     /\ dec' = [dec EXCEPT ![w.cs] = [ts |-> ts1, dtime |-> dt, mlen |-> mlen, got |-> IF full THEN 0 ELSE st.got + size,
                                      type |-> type, ext |-> IF new THEN ext /\ TimeFix ELSE st.ext,
                                      lastext |-> IF ext THEN w.extf ELSE st.lastext, ids |-> ids]]
     /\ out' = IF full THEN (IF Cardinality(ids) = 1 THEN Parts(type, ts1, w.id, w.sub) ELSE <<[id |-> 0, part |-> 0, ts |-> 0]>>)
               ELSE <<>>

(* ------------------------------ the peer --------------------------------- *)
Chunk(c, fmt, e, f, isnew) ==
  \* e: encoder state with the header in force; f: timestamp field (fmt <= 2)
  LET n == Min(csize, e.left)
      rep == fmt = 3 /\ e.ext # 0 /\ TimeFix
      w == [cs |-> c, fmt |-> fmt, tsf |-> IF fmt <= 2 THEN f ELSE 0,
            extf |-> IF (fmt <= 2 /\ f >= EXT) \/ rep THEN (IF fmt <= 2 THEN f ELSE e.ext) ELSE NoExt,
            len |-> e.len, type |-> e.type, n |-> n, id |-> e.id, sub |-> e.sub]
      fin == e.left = n
  IN /\ enc' = [enc EXCEPT ![c] = [e EXCEPT !.left = @ - n]]
     /\ done' = IF fin THEN Parts(e.type, e.ts, e.id, e.sub) ELSE <<>>
     /\ Decode(w)
     /\ Emit([a |-> "c", cs |-> c, fmt |-> fmt, id |-> e.id, ty |-> e.type, ts |-> e.ts, f |-> IF fmt <= 2 THEN f ELSE e.ext,
              sub |-> e.sub, len |-> e.len, off |-> e.len - e.left, n |-> n, new |-> isnew, fin |-> fin])

Start(c, fmt, ty, len, step, sub) ==
  LET e  == enc[c]
      ts == (clock + step) % MOD
      d  == ts - e.ts
      nx(dl, x, z) == [ts |-> ts, delta |-> dl, len |-> len, type |-> ty, ext |-> IF x >= EXT THEN x ELSE 0,
                       used |-> TRUE, need0 |-> FALSE, z |-> z, left |-> len, id |-> nmsg + 1, sub |-> sub]
  IN /\ e.left = 0 /\ nmsg < MaxMsgs
     /\ (ty # "g" => sub = 0)
     /\ fmt > 0 => ~e.need0 /\ d >= 0
     /\ fmt >= 2 => len = e.len /\ ty = e.type
     \* type 3: same delta; after a type 0 header this code base means "same time"
     /\ fmt = 3 => IF e.z THEN d = 0 /\ e.ext = 0 ELSE d = e.delta
     /\ nmsg' = nmsg + 1 /\ clock' = ts
     /\ UNCHANGED <<csize, dsize>>
     /\ CASE fmt = 0 -> Chunk(c, 0, nx(0, ts, TRUE), ts, TRUE)
          [] fmt \in {1, 2} -> Chunk(c, fmt, nx(d, d, FALSE), d, TRUE)
          [] OTHER -> Chunk(c, 3, nx(e.delta, IF e.z THEN 0 ELSE e.delta, e.z), 0, TRUE)

Continue(c) == /\ enc[c].left > 0
               /\ UNCHANGED <<csize, dsize, clock, nmsg>>
               /\ Chunk(c, 3, enc[c], 0, FALSE)

SetChunk(n) == /\ n # csize /\ csize' = n /\ dsize' = n
               /\ UNCHANGED <<enc, clock, nmsg, dec, bad>> /\ done' = <<>> /\ out' = <<>>
               /\ Emit([a |-> "set", n |-> n])

Abort(c) == /\ Aborts /\ enc[c].left > 0
            /\ enc' = [enc EXCEPT ![c].left = 0, ![c].need0 = TRUE]
            /\ dec' = [dec EXCEPT ![c].got = 0]
            /\ UNCHANGED <<csize, dsize, clock, nmsg, bad>> /\ done' = <<>> /\ out' = <<>>
            /\ Emit([a |-> "abort", cs |-> c])

Next == \/ \E c \in Cs, fmt \in 0..3, ty \in Types, len \in Lens, st \in Steps, sub \in {0} \cup Steps : Start(c, fmt, ty, len, st, sub)
        \/ \E c \in Cs : Continue(c) \/ Abort(c)
        \/ \E n \in ChunkSizes : SetChunk(n)
Spec == Init /\ [][Next]_vars

(* random generation: every format alike, messages get finished *)
R(S) == {RandomElement({x \in S : nmsg >= 0})}   \* not a constant: drawn anew
GenNext == \/ \E c \in Cs, i \in {1, 2} : Continue(c)
           \/ \E n \in R(ChunkSizes) : SetChunk(n)
           \/ nmsg % 5 = 2 /\ \E c \in Cs : Abort(c)
           \/ \E c \in Cs : \E fmt \in R(0..1), ty \in R(Types), len \in R(Lens), st \in R(Steps), sub \in R(Steps) :
                 Start(c, fmt, ty, len, st, IF ty = "g" THEN sub ELSE 0)
           \/ \E c \in Cs, i \in {1, 2} : \E st \in R(Steps) : enc[c].type # "g" /\ Start(c, 2, enc[c].type, enc[c].len, st, 0)
           \/ \E c \in Cs, i \in {1, 2} :
                 LET x == (enc[c].ts + enc[c].delta + MOD - clock) % MOD     \* hit the type 3 delta
                 IN enc[c].used /\ enc[c].type # "g" /\ x < 2000 /\ Start(c, 3, enc[c].type, enc[c].len, x, 0)

View == <<enc, csize, clock, nmsg, dec, dsize, bad>>
(* ------------------------------ properties ------------------------------- *)
WellFormed == ~bad
Faithful == out = done
=============================================================================
