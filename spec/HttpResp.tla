------------------------------ MODULE HttpResp ------------------------------
(* One response of an HTTP server: Shapes, Tokens and Result say what the    *)
(* caller of the HTTP client gets for what the server has sent.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

(* head: asked with HEAD; v: 11 or 10; status; conn: none, close, keep;       *)
(* delim: len, chunked, close; n: units of body; bad: where it is malformed;  *)
(* extra: bytes after the end                                                 *)
Shapes(N) ==
  {sh \in [head : BOOLEAN, v : {10, 11}, status : {200, 204}, conn : {"none", "close", "keep"},
           delim : {"len", "chunked", "close"}, n : 0..N, bad : {"", "status", "header", "chunk"}, extra : BOOLEAN] :
     /\ sh.bad = "chunk" => sh.delim = "chunked" /\ ~sh.head /\ sh.status # 204 /\ sh.n > 0
     /\ sh.bad # "" => ~sh.extra
     /\ (sh.head \/ sh.status = 204) => sh.n = 0
     /\ sh.extra => sh.delim # "close" \/ sh.head \/ sh.status = 204}

Empty(sh) == sh.head \/ sh.status \in {204, 304}

RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN <<>> ELSE x \o Rep(x, n - 1)

(* the tokens of a response: S status line, H header lines, E end of header,  *)
(* c chunk size, b a unit of body, z last chunk, ! malformed, x extra bytes   *)
Tokens(sh) ==
  (IF sh.bad = "status" THEN <<"!">> ELSE <<"S">>
     \o (IF sh.bad \in {"header", "length", "big"} THEN <<"!">> ELSE <<"H", "E">>
          \o (IF Empty(sh) THEN <<>>
              ELSE IF sh.delim = "chunked" THEN (IF sh.bad = "chunk" THEN Rep(<<"c", "b">>, sh.n - 1) \o <<"c", "b", "!">> ELSE Rep(<<"c", "b">>, sh.n) \o <<"z">>)
              ELSE Rep(<<"b">>, sh.n))
          \o (IF sh.extra THEN <<"x">> ELSE <<>>)))

Has(t, x) == \E i \in DOMAIN t : t[i] = x
Count(t, x) == Cardinality({i \in DOMAIN t : t[i] = x})

Whole(sh, t) == Has(t, "E") /\ (Empty(sh) \/ (sh.delim = "len" /\ Count(t, "b") = sh.n) \/ (sh.delim = "chunked" /\ Has(t, "z")))

(* what the caller has after the server sent p tokens and then fin            *)
Result(sh, p, fin) ==
  LET t == SubSeq(Tokens(sh), 1, p)
      hdr == Has(t, "E")
  IN [hdr |-> hdr, body |-> Count(t, "b"),
      end |-> IF Has(t, "!") THEN (IF hdr THEN "error" ELSE "fail")
              ELSE IF Whole(sh, t) THEN "done"
              ELSE IF fin = "" THEN ""
              ELSE IF ~hdr THEN "fail"
              ELSE IF fin = "rst" THEN "error" ELSE "closed"]

(* may the connection be used for another request?                            *)
Reusable(sh, p, fin) ==
  /\ Result(sh, p, fin).end = "done" /\ fin = "" /\ ~sh.extra
  /\ (sh.v = 11 /\ sh.conn # "close") \/ sh.conn = "keep"
=============================================================================
