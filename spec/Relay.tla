------------------------------ MODULE Relay ------------------------------
(* Configured relays of one stream.

   push: every target gets what is published here, as long as it is; a target
   is a list of urls, the later ones being backups.  pull: while there are
   players here, and nobody publishes here, the stream is fetched from one of
   the urls.  A connection that cannot be made, is closed or not answered in
   time is tried again: first with the backup urls, then, a little later, from
   the start.  A connection lost after it was accepted is tried again from the
   start at once.  An upstream which rejects the stream is believed: whoever
   publishes (plays) here is told and closed. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Kinds,    \* what the targets are, << "push", "pull" >>
          NUrls,    \* urls of each target, << 1, 2 >>
          P,        \* players
          Fails,    \* ways in which an attempt fails
          Gen,      \* generate behaviours
          MaxOps    \* steps, 0: any number

T == 1 .. Len(NUrls)
Urls == { xu \in T \X (1 .. 3) : xu[2] <= NUrls[xu[1]] }

VARIABLES pub,      \* a client publishes here
          players,  \* clients which play here
          t,        \* targets: [st, u, n]: off, try (url u called), wait (until it is tried again), on; n attempts so far
          down,     \* urls where nobody listens
          ops, log

vars == << pub, players, t, down, ops, log >>

\* (behaviours to be replayed tell the attempts apart)
Count(n) == IF Gen THEN n + 1 ELSE (n + 1) % 3

Off(x) == [x EXCEPT !.st = "off"]

\* call the first url from u on which answers; n counts only calls somebody can take
RECURSIVE Call(_, _, _)
Call(x, u, r) ==
    IF u > NUrls[x] THEN [r EXCEPT !.st = "wait", !.u = 1]
    ELSE IF << x, u >> \in down THEN Call(x, u + 1, r)
    ELSE [r EXCEPT !.st = "try", !.u = u, !.n = Count(@)]

AllDown(x) == \A u \in 1 .. NUrls[x] : << x, u >> \in down

Init == /\ pub = FALSE /\ players = 0 /\ down = {} /\ ops = 0 /\ log = << >>
        /\ t = [x \in T |-> [st |-> "off", u |-> 1, n |-> 0]]

Obs == [pub |-> pub', players |-> players', t |-> t']
Op(e) == /\ MaxOps = 0 \/ ops < MaxOps
         /\ ops' = (IF Gen \/ MaxOps = 0 THEN ops ELSE ops + 1)
         /\ log' = (IF Gen THEN Append(log, [e |-> e, o |-> Obs]) ELSE log)

All(f) == [x \in T |-> f]

Pub == /\ ~pub /\ pub' = TRUE
       /\ t' = [x \in T |-> IF Kinds[x] = "push" THEN Call(x, 1, t[x]) ELSE t[x]]
       /\ UNCHANGED << players, down >>
       /\ Op([a |-> "pub"])

Unpublished == [x \in T |-> IF Kinds[x] = "push" THEN Off(t[x])
                            ELSE IF players > 0 /\ t[x].st = "off" THEN Call(x, 1, t[x]) ELSE t[x]]

\* (not while it is open whether somebody has noticed that nothing is to be pulled)
Unpub == /\ pub /\ pub' = FALSE
         /\ Gen => \A x \in T : Kinds[x] = "push" \/ t[x].st # "wait"
         /\ t' = Unpublished
         /\ UNCHANGED << players, down >>
         /\ Op([a |-> "unpub"])

Play == /\ players < P /\ players' = players + 1
        /\ t' = [x \in T |-> IF Kinds[x] = "pull" /\ ~pub /\ t[x].st = "off" THEN Call(x, 1, t[x]) ELSE t[x]]
        /\ UNCHANGED << pub, down >>
        /\ Op([a |-> "play"])

Leave == /\ players > 0 /\ players' = players - 1
         /\ t' = [x \in T |-> IF Kinds[x] = "pull" /\ players = 1 THEN Off(t[x]) ELSE t[x]]
         /\ UNCHANGED << pub, down >>
         /\ Op([a |-> "leave"])

Ok(x) == /\ t[x].st = "try" /\ t' = [t EXCEPT ![x].st = "on"]
         /\ UNCHANGED << pub, players, down >>
         /\ Op([a |-> "ok", x |-> x])

\* (somebody else publishes here: there is nothing to be pulled)
Needless(x) == Kinds[x] = "pull" /\ pub

Fail(x, how) ==
    /\ t[x].st = "try"
    /\ t' = [t EXCEPT ![x] = IF Needless(x) THEN Off(@) ELSE Call(x, @.u + 1, @)]
    /\ UNCHANGED << pub, players, down >>
    /\ Op([a |-> "fail", x |-> x, how |-> how])

Lose(x) ==
    /\ t[x].st = "on"
    /\ t' = [t EXCEPT ![x] = IF Needless(x) THEN Off(@) ELSE Call(x, 1, @)]
    /\ UNCHANGED << pub, players, down >>
    /\ Op([a |-> "lose", x |-> x])

Reject(x) ==
    /\ t[x].st = "try"
    \* (every other publisher, or player, is closed: what is pulled or pushed at that time, too, and then tried again)
    /\ \A y \in T : Kinds[y] # Kinds[x] => t[y].st = "off"
    /\ IF Kinds[x] = "push" THEN pub' = FALSE /\ t' = Unpublished /\ UNCHANGED players
       ELSE /\ players' = 0 /\ t' = [y \in T |-> IF Kinds[y] = "pull" THEN Off(t[y]) ELSE t[y]] /\ UNCHANGED pub
    /\ UNCHANGED down
    /\ Op([a |-> "reject", x |-> x])

Wake(x) ==
    /\ t[x].st = "wait" /\ (Needless(x) \/ ~AllDown(x))
    \* (this takes some time to be sure of)
    /\ Gen /\ Needless(x) => \A y \in T \ {x} : t[y].st \in {"off", "on"} \/ (t[y].st = "wait" /\ AllDown(y))
    /\ t' = [t EXCEPT ![x] = IF Needless(x) THEN Off(@) ELSE Call(x, 1, @)]
    /\ UNCHANGED << pub, players, down >>
    /\ Op([a |-> "wake", x |-> x])

\* the environment; not while it is open which url is being called
Down(x, u) ==
    /\ << x, u >> \notin down /\ t[x].st # "wait" /\ down' = down \cup {<< x, u >>}
    /\ UNCHANGED << pub, players, t >>
    /\ Op([a |-> "down", x |-> x, u |-> u])

UpAgain(x, u) ==
    /\ << x, u >> \in down /\ (t[x].st # "wait" \/ (AllDown(x) /\ ~Needless(x))) /\ down' = down \ {<< x, u >>}
    /\ t' = [t EXCEPT ![x] = IF @.st = "wait" THEN [@ EXCEPT !.st = "try", !.u = u, !.n = Count(@)] ELSE @]
    /\ UNCHANGED << pub, players >>
    /\ Op([a |-> "up", x |-> x, u |-> u])

Attempts == \E x \in T : Ok(x) \/ (\E how \in Fails : Fail(x, how)) \/ Lose(x) \/ Reject(x) \/ Wake(x)
Users == Pub \/ Unpub \/ Play \/ Leave
Env == \E xu \in Urls : Down(xu[1], xu[2]) \/ UpAgain(xu[1], xu[2])

Next == Users \/ Attempts \/ Env
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Needed(x) == IF Kinds[x] = "push" THEN pub ELSE players > 0 /\ ~pub
Wanted(x) == IF Kinds[x] = "push" THEN pub ELSE players > 0

Types == /\ players \in 0 .. P
         /\ \A x \in T : t[x].st \in {"off", "try", "wait", "on"} /\ t[x].u \in 1 .. NUrls[x]
\* tried again until it works
Tried == \A x \in T : Needed(x) => t[x].st # "off"
\* and never when nobody wants it
Released == \A x \in T : Wanted(x) \/ t[x].st = "off"
\* what fails is followed by another url, or by a pause: nothing is called again at once
Pause == [][\A x \in T : t[x].st = "try" /\ t'[x].st = "try" /\ t'[x].n # t[x].n => t'[x].u > t[x].u]_vars

\* a target with an upstream that stays up and sometimes accepts is connected again and again
FairSpec == Spec /\ \A x \in T : SF_vars(Ok(x)) /\ WF_vars(Wake(x))
Connected == \A x \in T : <>[](~AllDown(x) /\ Needed(x)) => []<>(t[x].st = "on")

View == << pub, players, [x \in T |-> [st |-> t[x].st, u |-> t[x].u]], down, ops >>

-----------------------------------------------------------------------------
Send == /\ UNCHANGED << pub, players, t, down >>
        /\ Op([a |-> "send"])

GenNext ==
    \E d \in {RandomElement(1 .. 20 + 0 * Len(log))} :
        IF (\E x \in T : ENABLED Wake(x)) /\ d > 5 THEN \E x \in T : Wake(x)
        ELSE IF (\E x \in T : t[x].st = "try") /\ d > 4
        THEN IF d > 12 THEN \E x \in T : Ok(x)
             ELSE IF d = 12 /\ (\E x \in T : ENABLED Reject(x)) THEN \E x \in T : Reject(x)
             \* (an attempt left alone until it times out: no other one may be under way)
             ELSE \E x \in T :
                  \E how \in {IF d = 5 /\ \A y \in T \ {x} : t[y].st # "try" THEN "silent" ELSE RandomElement(Fails \ {"silent"})} : Fail(x, how)
        ELSE IF d > 15 THEN Env \/ \E x \in T : Lose(x)
        ELSE IF d > 9 /\ log # << >> /\ log[Len(log)].e.a # "send" THEN Send ELSE Users
=============================================================================
