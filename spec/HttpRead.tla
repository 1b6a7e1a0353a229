------------------------------ MODULE HttpRead ------------------------------
(* The client which reads a response as it arrives, the way ngx_http_client.c *)
(* does: Agree says that how it arrives does not matter.                      *)
EXTENDS HttpResp
CONSTANTS N
VARIABLES shape, sent, fin,                   \* the server
          sock, state, hdr, body, end,        \* the client: what is unread, where it is, what its caller has
          left                                \* units which are still to come, or still in this chunk
vars == <<shape, sent, fin, sock, state, hdr, body, end, left>>

Init == /\ shape \in Shapes(N) /\ sent = 0 /\ fin = "" /\ sock = <<>>
        /\ state = "status" /\ hdr = FALSE /\ body = 0 /\ end = "" /\ left = 0

Send == /\ fin = "" /\ sent < Len(Tokens(shape)) /\ sent' = sent + 1
        /\ sock' = Append(sock, Tokens(shape)[sent + 1])
        /\ UNCHANGED <<shape, fin, state, hdr, body, end, left>>
Fin == /\ fin = "" /\ fin' \in {"fin", "rst"} /\ (fin' = "rst" => sock = <<>>)
       /\ UNCHANGED <<shape, sent, sock, state, hdr, body, end, left>>

(* one read event: everything which has arrived is read                       *)
RECURSIVE Step(_)
Step(c) ==
  IF c.end # "" THEN c
  ELSE IF c.state = "body" /\ c.left = 0 THEN [c EXCEPT !.end = "done"]
  ELSE IF c.q = <<>>
       THEN IF fin = "" THEN c
            ELSE [c EXCEPT !.end = IF c.state \in {"status", "header"} THEN "fail" ELSE IF fin = "rst" THEN "error" ELSE "closed"]
  ELSE LET x == Head(c.q)
           d == [c EXCEPT !.q = Tail(c.q)]
       IN Step(CASE c.state = "status" -> IF x = "S" THEN [d EXCEPT !.state = "header"] ELSE [d EXCEPT !.end = "fail"]
                 [] c.state = "header" -> IF x = "!" THEN [d EXCEPT !.end = "fail"]
                                          ELSE IF x = "H" THEN d
                                          ELSE IF Empty(shape) THEN [d EXCEPT !.state = "body", !.left = 0, !.hdr = TRUE]
                                          ELSE IF shape.delim = "len" THEN [d EXCEPT !.state = "body", !.left = shape.n, !.hdr = TRUE]
                                          ELSE IF shape.delim = "close" THEN [d EXCEPT !.state = "stream", !.hdr = TRUE]
                                          ELSE [d EXCEPT !.state = "size", !.hdr = TRUE]
                 [] c.state = "body" -> [d EXCEPT !.body = @ + 1, !.left = @ - 1]
                 [] c.state = "stream" -> [d EXCEPT !.body = @ + 1]
                 [] c.state = "size" -> IF x = "z" THEN [d EXCEPT !.end = "done"]
                                        ELSE IF x = "!" THEN [d EXCEPT !.end = "error"] ELSE [d EXCEPT !.state = "data", !.left = 1]
                 [] c.state = "data" -> IF c.left = 0 THEN [d EXCEPT !.end = "error"]
                                        ELSE [d EXCEPT !.body = @ + 1, !.left = 0, !.state = "size"])
Read == LET c == Step([q |-> sock, state |-> state, hdr |-> hdr, body |-> body, end |-> end, left |-> left])
        IN /\ sock' = c.q /\ state' = c.state /\ hdr' = c.hdr /\ body' = c.body /\ end' = c.end /\ left' = c.left
           /\ UNCHANGED <<shape, sent, fin>>
Next == Send \/ Fin \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Read)
-----------------------------------------------------------------------------
Mine == [hdr |-> hdr, body |-> body, end |-> end]
(* once the client has run, its caller has what Result says, for every way    *)
(* the bytes came; a result once given is never changed                       *)
Agree == [][Read => LET c == Mine' IN c = Result(shape, sent, fin) \/ (end # "" /\ UNCHANGED <<hdr, body, end>>)]_vars
Once == [][end # "" => end' = end /\ body' = body]_vars
Sound == end \in {"done", "error"} => end = Result(shape, sent, fin).end
Answered == (fin # "") ~> (end # "")
=============================================================================
