------------------------------- MODULE Access -------------------------------
(***************************************************************************)
(* Access rules: who may publish and play.  A configuration holds a list of *)
(* rules at the main, server and application level; a client is judged by   *)
(* the first rule, innermost level first, which names its action and covers *)
(* its address.  IPv4-mapped IPv6 addresses are IPv4 addresses, rules for   *)
(* one family never cover the other, clients on a local socket have no      *)
(* address.                                                                 *)
(*                                                                          *)
(* Decide is that sentence.  ImplDecide is what ngx_rtmp_access_module does *)
(* (one list per family, merged outwards level by level); the exhaustive    *)
(* runs show both agree for every configuration of the bounds.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS DB,            \* bits of a digit of an address (8; 1 or 2 for the exhaustive runs)
          W4, W6,        \* digits of an IPv4, IPv6 address
          Srvs, Apps, Names, Slots,
          MaxRules,      \* rules per level (exhaustive runs)
          Levels,        \* levels which have rules (exhaustive runs)
          Protos,        \* rtmp, flv, ts, hls
          Dynamic,       \* FALSE: only the decision, for every configuration
          MaxOps, Gen
VARIABLES cfg,           \* [main, srv[s], app[s][a]] : rule lists
          ses,           \* slot -> idle or [role, srv, app, name, addr]
          nops, log
vars == <<cfg, ses, nops, log>>

\* addresses: [f |-> "4" | "6" | "m" | "u", b |-> digits]; rules: [v, act, net]
\* with net = [f |-> "4" | "6" | "all", b, len]
RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
Fam(a) == IF a.f = "m" THEN "4" ELSE a.f
Covers(net, a) ==
  \/ net.f = "all"
  \/ /\ net.f = Fam(a)
     /\ LET full == net.len \div DB
            rest == P2(DB - (net.len % DB))
        IN /\ \A i \in 1..full : net.b[i] = a.b[i]
           /\ (net.len % DB = 0) \/ (net.b[full + 1] \div rest = a.b[full + 1] \div rest)
Names_(r, act) == r.act = "both" \/ r.act = act
\* the verdict of a list: "allow", "deny" or "none"
Verdict(rules, act, a) ==
  LET hit == {i \in 1..Len(rules) : Names_(rules[i], act) /\ Covers(rules[i].net, a)}
  IN IF hit = {} THEN "none" ELSE rules[CHOOSE i \in hit : \A j \in hit : i <= j].v
Decide(c, s, p, act, a) ==
  IF a.f = "u" THEN TRUE
  ELSE LET va == Verdict(c.app[s][p], act, a)
           vs == Verdict(c.srv[s], act, a)
           vm == Verdict(c.main, act, a)
       IN IF va # "none" THEN va = "allow" ELSE IF vs # "none" THEN vs = "allow" ELSE vm # "deny"

\* ---- the implementation: two arrays per level, parents appended on merge
Of(rules, f) == SelectSeq(rules, LAMBDA r : r.net.f \in {"all", f})
Merge(parent, child) == IF parent = <<>> THEN child ELSE IF child = <<>> THEN parent ELSE child \o parent
ImplDecide(c, s, p, act, a) ==
  IF a.f = "u" THEN TRUE
  ELSE LET f == Fam(a)
           r == Merge(Merge(Of(c.main, f), Of(c.srv[s], f)), Of(c.app[s][p], f))
       IN Verdict(r, act, a) # "deny"

----------------------------------------------------------------------------
Digit == 0..(P2(DB) - 1)
Tup(n) == [1..n -> Digit]
Aligned(b, l) == \A i \in 1..Len(b) : \A k \in 0..(DB - 1) : (i - 1) * DB + (DB - k) > l => (b[i] \div P2(k)) % 2 = 0
All == [f |-> "all", b |-> <<>>, len |-> 0]
Net(f, w) == {[f |-> f, b |-> b, len |-> l] : b \in Tup(w), l \in 0..(w * DB)}
Nets == {n \in Net("4", W4) \cup Net("6", W6) : Aligned(n.b, n.len)} \cup {All}
Rules == {[v |-> v, act |-> a, net |-> n] : v \in {"allow", "deny"}, a \in {"both", "publish", "play"}, n \in Nets}
Lists(l) == IF l \in Levels THEN UNION {[1..k -> Rules] : k \in 0..MaxRules} ELSE {<<>>}
Addrs == {[f |-> "4", b |-> b] : b \in Tup(W4)} \cup {[f |-> "m", b |-> b] : b \in Tup(W4)} \cup
         {[f |-> "6", b |-> b] : b \in Tup(W6)} \cup {[f |-> "u", b |-> <<>>]}
Idle == [role |-> "idle"]
Config == \E m \in Lists("main"), s \in Lists("srv"), p \in Lists("app") :
             cfg = [main |-> m, srv |-> [x \in Srvs |-> s], app |-> [x \in Srvs |-> [y \in Apps |-> p]]]
Init == Config /\ ses = [x \in Slots |-> Idle] /\ nops = 0 /\ log = <<>>

Reg(se) == [t \in {<<s, p, n>> : s \in Srvs, p \in Apps, n \in Names} |->
              [pub |-> {x \in Slots : se[x].role = "publish" /\ <<se[x].srv, se[x].app, se[x].name>> = t},
               play |-> {x \in Slots : se[x].role = "play" /\ <<se[x].srv, se[x].app, se[x].name>> = t}]]
Emit(r) == /\ nops' = nops + 1
           /\ log' = IF Gen THEN Append(log, r @@ [joined |-> {x \in Slots : ses'[x].role # "idle"}]) ELSE log
\* a client with address a asks to publish or play
Ask(x, s, p, n, act, proto, a) ==
  /\ ses[x] = Idle /\ nops < MaxOps
  /\ LET ok == Decide(cfg, s, p, act, a)
     IN /\ ses' = IF ok THEN [ses EXCEPT ![x] = [role |-> act, srv |-> s, app |-> p, name |-> n, addr |-> a]] ELSE ses
        /\ Emit([a |-> act, s |-> x, srv |-> s, app |-> p, name |-> n, proto |-> proto, addr |-> a, ok |-> ok])
  /\ UNCHANGED cfg
Leave(x) ==
  /\ ses[x] # Idle /\ nops < MaxOps
  /\ ses' = [ses EXCEPT ![x] = Idle] /\ Emit([a |-> "leave", s |-> x]) /\ UNCHANGED cfg
Publishing(s, p, n) == {y \in Slots : IF ses[y].role = "publish" THEN <<ses[y].srv, ses[y].app, ses[y].name>> = <<s, p, n>> ELSE FALSE}
Asks(x) == \E s \in Srvs, p \in Apps, n \in Names, act \in {"publish", "play"}, pr \in Protos, a \in Addrs :
              (act = "play" \/ pr = "rtmp") /\ (act = "play" \/ Publishing(s, p, n) = {})
              /\ Ask(x, s, p, n, act, pr, a)
Next == Dynamic /\ \E x \in Slots : Asks(x) \/ Leave(x)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* properties
Same == \A s \in Srvs, p \in Apps, act \in {"publish", "play"}, a \in Addrs :
          ImplDecide(cfg, s, p, act, a) = Decide(cfg, s, p, act, a)
\* an IPv4-mapped client is judged like the IPv4 client
MappedSame == \A s \in Srvs, p \in Apps, act \in {"publish", "play"}, b \in Tup(W4) :
          ImplDecide(cfg, s, p, act, [f |-> "m", b |-> b]) = ImplDecide(cfg, s, p, act, [f |-> "4", b |-> b])
OnlyAllowed == \A x \in Slots : ses[x] # Idle => ImplDecide(cfg, ses[x].srv, ses[x].app, ses[x].role, ses[x].addr)
\* a request changes nobody else, and nothing at all when it is refused
Undisturbed == [][\A x \in Slots : ses'[x] # ses[x] => \A y \in Slots \ {x} : ses'[y] = ses[y]]_vars
View == <<cfg, ses>>

----------------------------------------------------------------------------
\* generation: real address widths, networks and addresses differ in few bits
R(S) == {RandomElement({x \in S : nops >= 0})}
Pos4 == {1, 7, 8, 9, 16, 17, 24, 25, 30, 31, 32}
Pos6 == {1, 8, 9, 63, 64, 65, 96, 97, 120, 127, 128}
Base(f) == IF f = "6" THEN [i \in 1..16 |-> IF i = 16 THEN 1 ELSE 0] ELSE <<127, 0, 0, 1>>
Flip(b, k) == IF k = 0 THEN b
              ELSE LET i == ((k - 1) \div 8) + 1
                       v == P2(7 - ((k - 1) % 8))
                   IN [b EXCEPT ![i] = IF (b[i] \div v) % 2 = 1 THEN b[i] - v ELSE b[i] + v]
Pos(f) == IF f = "6" THEN Pos6 ELSE Pos4
RandNet == CHOOSE n \in {LET t == <<"all", "4", "4", "4", "4", "6", "6">>[RandomElement({x \in 1..7 : nops >= 0})]
                         IN IF t = "all" THEN All
                            ELSE LET k == RandomElement({x \in Pos(t) \cup {0} : nops >= 0})
                                     l == RandomElement({x \in Pos(t) \cup {q - 1 : q \in Pos(t)} : nops >= 0})
                                 IN [f |-> t, b |-> Flip(Base(t), k), len |-> l]} : TRUE
RandRule(i) == [v |-> RandomElement({x \in {"allow", "deny"} : nops >= 0}),
                act |-> <<"both", "publish", "play">>[RandomElement({x \in 1..3 : nops >= 0})], net |-> RandNet]
RandList(n) == [i \in 1..RandomElement({x \in 0..n : nops >= 0}) |-> RandRule(i)]
Configure ==
  /\ nops = 0
  /\ \E c \in {[main |-> RandList(2), srv |-> [s \in Srvs |-> RandList(3)], app |-> [s \in Srvs |-> [p \in Apps |-> RandList(4)]]]} :
        /\ cfg' = c
        /\ log' = <<[a |-> "configure", cfg |-> c]>>
  /\ nops' = 1 /\ ses' = ses
RandAddr ==
  LET t == <<"4", "4", "4", "4", "m", "m", "6", "6", "6", "u">>[RandomElement({x \in 1..10 : nops >= 0})]
      k == RandomElement({x \in Pos(t) \cup {0} : nops >= 0})
      j == RandomElement({x \in Pos(t) \cup {0} : nops >= 0})
  IN IF t = "u" THEN [f |-> t, b |-> <<>>] ELSE [f |-> t, b |-> IF j % 3 = 0 THEN Flip(Base(t), k) ELSE IF j = k THEN Base(t) ELSE Flip(Flip(Base(t), k), j)]
GenNext ==
  \/ Configure
  \/ /\ nops > 0
     /\ \E x \in R(Slots) : \E a \in {RandAddr} : \E s \in R(Srvs), p \in R(Apps), n \in R(Names), act \in R({"publish", "play"}) :
          \E pr \in R(IF act = "publish" \/ a.f = "u" THEN {"rtmp"} ELSE Protos) :
          IF ses[x] # Idle THEN Leave(x)
          ELSE IF act = "publish" /\ Publishing(s, p, n) # {}
               THEN Ask(x, s, p, n, "play", pr, a)
          ELSE Ask(x, s, p, n, act, pr, a)
=============================================================================
