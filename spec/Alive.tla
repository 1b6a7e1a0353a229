------------------------------- MODULE Alive -------------------------------
(***************************************************************************)
(* The timers which watch over sessions.  A publisher, a player of its     *)
(* stream, a client which does neither, a client of a server without pings *)
(* and one which is still in its handshake.  Time goes by in ticks.        *)
(*   every P ticks in which neither end sent anything the client is asked  *)
(*   for a sign of life; without any for T ticks it is disconnected        *)
(*   a publisher which had sent media is disconnected after I ticks        *)
(*   without                                                               *)
(*   a handshake which does not go on for H ticks is given up              *)
(* A timer which is set again by less than L ticks stays as it was.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS P, T, I, H, L, Margin, Who

VARIABLES ses,     \* client: see New
          log

vars == <<ses, log>>
Clients == {"pub", "sub", "req", "mute", "hs"}
Pinged == {"pub", "sub", "req"}
Never == -1

(* rem: ticks until the ping timer (handshake: read timer) is due, act: asked and waiting, rst: there was
   traffic, idl: ticks until the idle timer is due, pubs: publishes, fed: media since the timer was set;
   why it was closed; ghosts: quiet: ticks since the last traffic which counts, dumb: since the last of the
   client's, dry: since the last media, last: since a timer fired *)
New(x) == [up |-> x \in Who, rem |-> CASE x \in Pinged -> P [] x = "hs" -> H [] OTHER -> Never, act |-> FALSE, rst |-> x # "hs", idl |-> Never,
           pubs |-> x = "pub", why |-> "", stage |-> 0, quiet |-> 0, dumb |-> 0, dry |-> 0, last |-> Margin, wrong |-> FALSE]
Init == ses = [x \in Clients |-> New(x)] /\ log = <<>>

Abs(n) == IF n < 0 THEN -n ELSE n
Arm(old, new) == IF old # Never /\ Abs(new - old) < L THEN old ELSE new
Out(s) == IF ~s.up THEN s ELSE IF s.act THEN s ELSE [s EXCEPT !.rst = TRUE, !.quiet = 0]

----------------------------------------------------------------------------
(* a tick *)
Cap == 2 * P + T + I + 1
Pass(s) == LET n(k) == IF k > 0 THEN k - 1 ELSE k IN
  [s EXCEPT !.rem = n(@), !.idl = n(@), !.quiet = IF @ < Cap THEN @ + 1 ELSE @, !.dumb = IF @ < Cap THEN @ + 1 ELSE @, !.dry = IF @ < I + 1 THEN @ + 1 ELSE @, !.last = IF @ < Margin THEN @ + 1 ELSE @]
Close(s, why, wrong) == [s EXCEPT !.up = FALSE, !.why = why, !.wrong = wrong, !.rem = Never, !.idl = Never, !.last = 0]
FireIdle(s) == IF s.up /\ s.idl = 0 THEN Close(s, "idle", s.dry <= I - L) ELSE s
FirePing(s) ==
  IF ~s.up \/ s.rem # 0 THEN s
  ELSE IF s.rst THEN [s EXCEPT !.rem = P, !.act = FALSE, !.rst = FALSE, !.last = 0]
  ELSE IF s.act THEN Close(s, "ping", s.dumb < T)
  ELSE [s EXCEPT !.rem = T, !.act = TRUE, !.last = 0]
FireHs(s) == IF s.up /\ s.rem = 0 THEN Close(s, "handshake", s.dumb < H) ELSE s
\* (the end of a stream in which there was something is told to its player)
After(old, new) == IF old["pub"].up /\ old["pub"].idl # Never /\ ~new["pub"].up THEN [new EXCEPT !["sub"] = Out(@)] ELSE new
Ticked == LET p == [x \in Clients |-> Pass(ses[x])]
              f == [x \in Clients |-> IF x \in Pinged THEN FirePing(FireIdle(p[x])) ELSE IF x = "hs" THEN FireHs(p[x]) ELSE p[x]]
          IN After(ses, f)

(* the client of s sends something *)
Heard(s) == [s EXCEPT !.rst = TRUE, !.quiet = 0, !.dumb = 0]
Input(ss, x, k) ==
  CASE k = "" -> ss
    [] x = "hs" -> [ss EXCEPT ![x] = [@ EXCEPT !.rem = IF k = "whole" /\ ses[x].stage = 1 THEN Never ELSE H, !.dumb = 0, !.stage = IF k = "part" THEN @ ELSE @ + 1]]
    [] x = "mute" -> ss
    [] k = "answer" -> [ss EXCEPT ![x] = [Heard(@) EXCEPT !.rst = FALSE, !.act = FALSE, !.rem = Arm(@, P)]]
    [] k = "media" -> LET s == ss[x] IN
         IF ~s.pubs THEN [ss EXCEPT ![x] = Heard(@)]
         ELSE [ss EXCEPT ![x] = [Heard(@) EXCEPT !.dry = 0, !.idl = Arm(@, I)], !["sub"] = Out(@)]
    [] k = "stop" -> [ss EXCEPT ![x] = [Heard(@) EXCEPT !.idl = Never, !.pubs = FALSE], !["sub"] = IF ss[x].idl # Never THEN Out(@) ELSE @]
    [] OTHER -> [ss EXCEPT ![x] = Heard(@)]          \* "ask": a ping request, "ack"

Kinds(x) == CASE x = "hs" -> {"part", "whole"} [] x = "mute" -> {"ack"} [] x = "pub" -> {"answer", "media", "stop", "ask", "ack"} [] OTHER -> {"answer", "ask", "ack"}
Can(ss, x, k) == ss[x].up /\ (k = "stop" => ss[x].pubs) /\ (x = "hs" => ss[x].stage < 2)

Tick == ses' = Ticked /\ UNCHANGED log
Send == \E x \in Clients : \E k \in Kinds(x) : Can(ses, x, k) /\ ses' = Input(ses, x, k) /\ UNCHANGED log
Next == Tick \/ Send
Spec == Init /\ [][Next]_vars

\* who is silent is disconnected in time
Silent == \A x \in Pinged : ses[x].up => ses[x].quiet <= 2 * P + T
Idle == ses["pub"].up /\ ses["pub"].idl # Never => ses["pub"].dry <= I
Given == ses["hs"].up /\ ses["hs"].stage < 2 => ses["hs"].dumb <= H
\* and nobody else
Right == \A x \in Who : ~ses[x].wrong /\ (~ses[x].up => ses[x].why # "")
Spared == "mute" \in Who => ses["mute"].up
\* what closes a session is a reason for it
Reason == /\ \A x \in Clients : ses[x].why = "idle" => x = "pub"
          /\ \A x \in Clients : ses[x].why = "handshake" => x = "hs"
AView == [x \in Clients |-> IF ses[x].up THEN <<x, ses[x]>> ELSE <<x, ses[x].why, ses[x].wrong>>]

----------------------------------------------------------------------------
(* generation: nothing is sent within Margin ticks of a timer, so that the order of the two does not matter *)
One(S) == RandomElement({x \in S : Len(log) >= 0})
Far(s) == s.last >= Margin /\ (s.rem = Never \/ s.rem >= Margin) /\ (s.idl = Never \/ s.idl >= Margin)
Clear(old, new) == old = Never \/ Abs(new - old) \notin (L - 1)..(L + 1)
Fine(ss, x, k) ==
  /\ Can(ss, x, k) /\ Far(ss[x])
  /\ (k = "answer" => Clear(ss[x].rem, P)) /\ (k = "media" => (ss[x].pubs => Clear(ss[x].idl, I)))
  /\ (k \in {"media", "stop"} => (~ss["sub"].up \/ Far(ss["sub"])))
\* each client has its own temper, drawn at the start of a walk
Temper(x) == IF Len(log) = 0 THEN "" ELSE log[1].temper[x]
Draw == [pub |-> One({"busy", "busy", "stopper", "slow", "gone", "polite", "once"}), sub |-> One({"polite", "polite", "gone", "chatty", "late"}),
         req |-> One({"polite", "gone", "chatty", "late"}), mute |-> One({"gone", "chatty"}), hs |-> One({"slow", "gone", "chatty"})]
Chance(x, t, k) ==
  LET s == ses[x] IN
  CASE x = "hs" -> IF t = "gone" THEN 0 ELSE IF k = "part" THEN 25 ELSE IF t = "slow" THEN 3 ELSE 8
    [] k = "answer" -> IF ~s.act THEN (IF t = "chatty" THEN 2 ELSE 0) ELSE CASE t = "gone" -> 0 [] t = "late" -> IF s.rem <= 4 THEN 60 ELSE 0 [] OTHER -> 60
    [] k = "media" -> CASE t = "busy" -> 60 [] t = "stopper" -> IF Len(log) < 25 THEN 50 ELSE 0 [] t = "slow" -> IF s.idl = Never THEN 30 ELSE IF s.idl <= 5 THEN 80 ELSE 0
                        [] t = "once" -> IF s.idl = Never THEN 20 ELSE 0 [] OTHER -> 0
    [] k = "stop" -> IF t \in {"busy", "slow", "polite"} THEN 1 ELSE 0
    [] OTHER -> IF t = "chatty" THEN 20 ELSE IF t = "gone" THEN 0 ELSE 2
Pick(ss, x, t) ==
  LET ks == {k \in Kinds(x) : Fine(ss, x, k) /\ One(1..100) <= Chance(x, t, k)} IN IF ks = {} THEN "" ELSE One(ks)
Order == <<"pub", "sub", "req", "mute", "hs">>
GenNext ==
  \E tm \in {TLCEval(IF Len(log) = 0 THEN Draw ELSE log[1].temper)} : \E a \in {TLCEval(Ticked)} :
  \E k1 \in {Pick(a, "pub", tm.pub)} : \E b \in {TLCEval(Input(a, "pub", k1))} :
  \E k2 \in {Pick(b, "sub", tm.sub)} : \E k3 \in {Pick(b, "req", tm.req)} : \E k4 \in {Pick(b, "mute", tm.mute)} : \E k5 \in {Pick(b, "hs", tm.hs)} :
  /\ ses' = TLCEval(Input(Input(Input(Input(b, "sub", k2), "req", k3), "mute", k4), "hs", k5))
  /\ log' = Append(log, [temper |-> tm, in |-> [pub |-> k1, sub |-> k2, req |-> k3, mute |-> k4, hs |-> k5],
                         asked |-> {x \in Pinged : a[x].act /\ ~ses[x].act}, gone |-> {x \in Clients : ses[x].up /\ ~ses'[x].up},
                         fed |-> k1 = "media" /\ a["pub"].pubs /\ b["sub"].up])
=============================================================================
