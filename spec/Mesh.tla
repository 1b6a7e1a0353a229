------------------------------- MODULE Mesh -------------------------------
(* One stream name in a server with several worker processes (inner relay).

   Clients are connected to one worker each.  The first worker which needs a
   name enters itself as the owner in the shared stream zone; any other worker
   with a publisher pushes its stream to the owner, and a worker with players
   only pulls it from there.  Such a link is an ordinary RTMP connection to
   the other worker's own port, so each of its ends sees the other go (or the
   other process die) some time after it happened, and the server answers
   when it gets round to it.

   The upper half is what the implementation does, step by step; the lower
   half says what clients may rely on, without any of it: once things have
   settled every player is fed by the publisher, over one path, and when
   nobody is left nothing is held. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N,        \* workers 0 .. N-1
          P,        \* players per worker
          MaxOps,   \* what clients do, and deaths, in all
          MaxDies,
          Gen       \* generate behaviours: no bound on ops, and a log

W == 0 .. N - 1
None == -1

VARIABLES s,      \* the state of the cluster, see Init
          alive,  \* processes
          want,   \* the worker whose client wants to publish, and tries again when it is refused or closed
          ops, dies,
          log     \* what users did (generated behaviours)

vars == << s, alive, want, ops, dies, log >>

Init == /\ s = [zone |-> None,                          \* owner in the zone
                slot |-> [w \in W |-> None],            \* owner as w knows it
                pub  |-> [w \in W |-> FALSE],           \* a client publishes
                play |-> [w \in W |-> 0],               \* players
                link |-> {},                            \* near ends [id, from, to, kind, st]
                far  |-> {}]                            \* far ends  [id, at, kind, ok]
        /\ alive = [w \in W |-> TRUE]
        /\ want = None /\ ops = 0 /\ dies = 0 /\ log = << >>

-----------------------------------------------------------------------------
(* what is there on worker w *)
Links(x, w, k) == { l \in x.link : l.from = w /\ l.kind = k }
Fars(x, w, k)  == { f \in x.far : f.at = w /\ f.kind = k }

HasPub(x, w)  == x.pub[w] \/ Fars(x, w, "push") # {}        \* a publisher which is no puller
PubCtx(x, w)  == HasPub(x, w) \/ Links(x, w, "pull") # {}
Pure(x, w)    == x.play[w] > 0 \/ Fars(x, w, "pull") # {}   \* a player which is no pusher
PlayCtx(x, w) == Pure(x, w) \/ Links(x, w, "push") # {}
Busy(x, w)    == x.pub[w] \/ Fars(x, w, "push") \cap { f \in x.far : f.ok } # {}

\* a stream nobody uses is forgotten, and given back if it is owned
Forget(x, w) ==
    IF PubCtx(x, w) \/ PlayCtx(x, w) THEN x
    ELSE [x EXCEPT !.zone = IF x.slot[w] = w /\ @ = w THEN None ELSE @, !.slot[w] = None]

Unused(x) == CHOOSE n \in 1 .. Cardinality(x.link) + Cardinality(x.far) + 1 : ~\E e \in { l.id : l \in x.link } \cup { f.id : f \in x.far } : e = n

\* become the owner, or a link to it
Relay(x, w, k) ==
    LET z == IF x.zone = None THEN w ELSE x.zone
        y == [x EXCEPT !.zone = z, !.slot[w] = z]
    IN IF z = w THEN y
       ELSE [y EXCEPT !.link = @ \cup {[id |-> Unused(x), from |-> w, to |-> None, kind |-> k, st |-> "wait"]}]

Pull(x, w) == IF x.slot[w] = w \/ (x.slot[w] # None /\ PubCtx(x, w)) THEN x ELSE Relay(x, w, "pull")

\* a publisher has come to w (and is one of x already)
Publish(x, w) ==
    LET y == Relay(x, w, "push") IN
    [y EXCEPT !.link = { l \in @ : ~(l.from = w /\ l.kind = "pull") }]

\* no player is left: stop pulling
NoPlayers(x, w) ==
    IF PlayCtx(x, w) \/ Links(x, w, "pull") = {} THEN x
    ELSE Forget([x EXCEPT !.link = @ \ Links(x, w, "pull"),
                          !.slot[w] = IF ~PubCtx([x EXCEPT !.link = @ \ Links(x, w, "pull")], w) THEN @ ELSE None], w)

NoPublishers(x, w) ==
    IF HasPub(x, w) THEN x ELSE NoPlayers(Forget([x EXCEPT !.link = @ \ Links(x, w, "push")], w), w)

\* a publisher (puller: of a pull link) of w has gone
PubGone(x, w, puller) ==
    LET a == Forget(x, w)
        b == IF puller THEN [a EXCEPT !.slot[w] = IF PubCtx(a, w) \/ PlayCtx(a, w) THEN None ELSE @] ELSE a
        c == IF Pure(b, w) THEN Pull(b, w) ELSE b
    IN NoPublishers(c, w)

\* a player (pusher: of a push link) of w has gone
PlayGone(x, w, pusher) ==
    LET a == Forget(x, w)
        b == IF pusher /\ HasPub(a, w) THEN Relay(a, w, "push") ELSE a
    IN NoPlayers(b, w)

LinkGone(x, l) ==
    LET y == [x EXCEPT !.link = @ \ {l}] IN
    IF l.kind = "pull" THEN PubGone(y, l.from, TRUE) ELSE PlayGone(y, l.from, TRUE)

FarGone(x, f) ==
    LET y == [x EXCEPT !.far = @ \ {f}] IN
    IF f.kind = "push" THEN PubGone(y, f.at, FALSE) ELSE PlayGone(y, f.at, FALSE)

-----------------------------------------------------------------------------
(* steps of the server *)
Far(x, l) == { f \in x.far : f.id = l.id }
Near(x, f) == { l \in x.link : l.id = f.id }

\* a link which was only created connects
Dial(i) == \E l \in s.link :
    /\ l.id = i /\ l.st = "wait"
    /\ s' = IF alive[s.slot[l.from]]
            THEN [s EXCEPT !.link = (@ \ {l}) \cup {[l EXCEPT !.st = "dial", !.to = s.slot[l.from]]}]
            ELSE LinkGone(s, l)
    /\ UNCHANGED << alive, want, ops, dies, log >>

\* the worker called takes it up
Take(i) == \E l \in s.link :
    /\ l.id = i /\ l.st = "dial" /\ alive[l.to]
    /\ LET ok == l.kind = "pull" \/ ~Busy(s, l.to)
           f == [id |-> l.id, at |-> l.to, kind |-> l.kind, ok |-> ok]
           x == [s EXCEPT !.far = @ \cup {f}, !.link = (@ \ {l}) \cup {[l EXCEPT !.st = IF ok THEN "taken" ELSE "refused"]}]
           \* whoever publishes first on a worker makes it push
           y == IF l.kind = "pull" THEN Pull(x, l.to) ELSE IF HasPub(s, l.to) THEN x ELSE Publish(x, l.to)
       IN s' = y
    /\ UNCHANGED << alive, want, ops, dies, log >>

Up(i) == \E l \in s.link :
    /\ l.id = i /\ l.st = "taken" /\ Far(s, l) # {}
    /\ s' = [s EXCEPT !.link = (@ \ {l}) \cup {[l EXCEPT !.st = "up"]}]
    /\ UNCHANGED << alive, want, ops, dies, log >>

\* the name is taken over there: the publishers here are told and closed
RECURSIVE CloseFars(_, _)
CloseFars(x, fs) == IF fs = {} THEN x ELSE LET f == CHOOSE f \in fs : TRUE IN CloseFars(FarGone(x, f), fs \ {f})

Refused(i) == \E l \in s.link :
    /\ l.id = i /\ l.st = "refused"
    /\ LET w == l.from
           x == CloseFars(s, Fars(s, w, "push"))
           y == IF x.pub[w] THEN PubGone([x EXCEPT !.pub[w] = FALSE], w, FALSE) ELSE x
       IN s' = IF HasPub(s, w) THEN y ELSE LinkGone(s, l)
    /\ UNCHANGED << alive, want, ops, dies, log >>

\* an end learns that the other has gone
NearSees(i) == \E l \in s.link :
    /\ l.id = i
    /\ (l.st = "dial" /\ ~alive[l.to]) \/ (l.st \in {"taken", "up", "refused"} /\ Far(s, l) = {})
    /\ s' = LinkGone(s, l)
    /\ UNCHANGED << alive, want, ops, dies, log >>

FarSees(i) == \E f \in s.far :
    /\ f.id = i /\ Near(s, f) = {}
    /\ s' = FarGone(s, f)
    /\ UNCHANGED << alive, want, ops, dies, log >>

Respawn(w) ==
    /\ ~alive[w]
    /\ alive' = [alive EXCEPT ![w] = TRUE]
    /\ s' = [s EXCEPT !.zone = IF @ = w THEN None ELSE @]
    /\ UNCHANGED << want, ops, dies, log >>

NewPub(w) ==
    LET x == [s EXCEPT !.pub[w] = TRUE] IN IF HasPub(s, w) THEN x ELSE Publish(x, w)

Step(i) == Dial(i) \/ Take(i) \/ Up(i) \/ Refused(i) \/ NearSees(i)
Ids == 1 .. (IF Gen THEN 6 * N ELSE 4 * N + MaxOps)     \* (more are never in use)
Busily == (\E i \in Ids : Step(i) \/ FarSees(i)) \/ (\E w \in W : Respawn(w))

\* (a patient client: one which is quicker only tries more often)
Retry == /\ ~ENABLED Busily
         /\ want # None /\ alive[want] /\ ~s.pub[want] /\ ~Busy(s, want)
         /\ s' = NewPub(want)
         /\ UNCHANGED << alive, want, ops, dies, log >>

Server == Busily \/ Retry
Quiet == ~ENABLED Server

-----------------------------------------------------------------------------
(* what clients do, and deaths *)
Op(a, w) == /\ ops < MaxOps
            /\ ops' = (IF Gen THEN ops ELSE ops + 1)
            /\ log' = (IF Gen THEN Append(log, [a |-> a, w |-> w, quiet |-> Quiet]) ELSE log)

UserPub == \E w \in W :
    /\ Op("pub", w) /\ alive[w] /\ want = None /\ want' = w
    /\ s' = IF Busy(s, w) THEN s ELSE NewPub(w)
    /\ UNCHANGED << alive, dies >>

UserUnpub ==
    /\ want # None /\ Op("unpub", want) /\ want' = None
    /\ s' = IF s.pub[want] THEN PubGone([s EXCEPT !.pub[want] = FALSE], want, FALSE) ELSE s
    /\ UNCHANGED << alive, dies >>

UserPlay == \E w \in W :
    /\ Op("play", w) /\ alive[w] /\ s.play[w] < P /\ s' = Pull([s EXCEPT !.play[w] = @ + 1], w)
    /\ UNCHANGED << alive, want, dies >>

UserLeave == \E w \in W :
    /\ Op("leave", w) /\ s.play[w] > 0 /\ s' = PlayGone([s EXCEPT !.play[w] = @ - 1], w, FALSE)
    /\ UNCHANGED << alive, want, dies >>

Die == \E w \in W :
    /\ Op("die", w) /\ dies < MaxDies /\ dies' = dies + 1 /\ alive[w]
    /\ alive' = [alive EXCEPT ![w] = FALSE]
    /\ want' = IF want = w THEN None ELSE want
    /\ s' = [s EXCEPT !.pub[w] = FALSE, !.play[w] = 0, !.slot[w] = None,
                      !.link = { l \in @ : l.from # w }, !.far = { f \in @ : f.at # w }]

Users == UserPub \/ UserUnpub \/ UserPlay \/ UserLeave \/ Die

Next == Server \/ Users
Spec == /\ Init /\ [][Next]_vars /\ WF_vars(Retry)
        /\ \A i \in Ids : WF_vars(Step(i)) /\ WF_vars(FarSees(i))
        /\ \A w \in W : WF_vars(Respawn(w))

-----------------------------------------------------------------------------
(* what clients rely on *)

\* the links over which a worker is fed: what a client publishes here or another worker pushes
\* here goes first, else what is pulled
Feeds(w) ==
    IF s.pub[w] THEN {}
    ELSE LET p == { l \in s.link : l.kind = "push" /\ l.st = "up" /\ \E f \in Far(s, l) : f.ok /\ f.at = w } IN
         IF p # {} THEN { l.from : l \in p } ELSE { l.to : l \in { m \in Links(s, w, "pull") : m.st = "up" /\ Far(s, m) # {} } }

RECURSIVE Fed(_, _)
Fed(w, seen) == s.pub[w] \/ \E v \in Feeds(w) : v \notin seen /\ Fed(v, seen \cup {w})

OneFeed  == \A w \in W : Cardinality(Feeds(w)) <= 1
Delivered == want # None => s.pub[want] /\ \A w \in W : s.play[w] > 0 => Fed(w, {})
\* nothing held without need, and nothing missing for whoever comes next
Clean == /\ \A w \in W : Cardinality({ l \in s.link : l.from = w }) <= 1
         /\ \A l \in s.link : HasPub(s, l.from) \/ Pure(s, l.from)
         /\ (s.pub = [w \in W |-> FALSE] /\ s.play = [w \in W |-> 0]) => s.link = {} /\ s.far = {} /\ s.zone = None
         /\ s.link = {} \/ s.zone # None
NamedIds == \A e \in s.link \cup s.far : e.id \in Ids
NoSelf == \A l \in s.link : l.to # l.from /\ (l.st = "wait" => s.slot[l.from] \notin {None, l.from})
Settled == Quiet => Delivered /\ Clean

Settles == []<>(Quiet \/ ops < MaxOps)

-----------------------------------------------------------------------------
(* behaviours to be replayed: what users do, and where everything had settled
   before they did it; what is published then must reach every player once *)
GenNext ==
    \E d \in {RandomElement(1 .. 10 + 0 * Len(log))} :
        IF Quiet THEN \/ Users
                      \/ /\ want # None /\ Op("send", want) /\ (log # << >> => log[Len(log)].a # "send")
                         /\ UNCHANGED << s, alive, want, dies >>
        ELSE IF d <= 8 THEN Server ELSE Users
=============================================================================
