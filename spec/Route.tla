-------------------------------- MODULE Route --------------------------------
(***************************************************************************)
(* Which configuration serves a connection.  A connection arrives at an     *)
(* address; the servers listing that address (or, if nobody lists it, the   *)
(* wildcard of its port) compete for it with their names: the host of the   *)
(* client's URL chooses by exact name, longest leading wildcard, longest    *)
(* trailing wildcard, first regular expression, else the default server of  *)
(* the address.  The server's application of the asked name, or its "*"     *)
(* application, serves the session, and its service id keeps its streams    *)
(* apart from those of other servers.                                       *)
(*                                                                          *)
(* Where(cfg, at) is the declarative address rule; ImplWhere follows        *)
(* ngx_rtmp.c: addresses grouped per port, sorted, bound, and looked up     *)
(* again after accept.  The exhaustive runs show they agree.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ports, Ips,     \* ip 0 is the wildcard
          Families,
          NSrv, MaxListen, MaxNames,
          Labels, Hosts,  \* hosts are sequences of labels
          Apps, Names, Slots,
          Binds,          \* whether explicit binds next to a wildcard occur (the
                          \* kernel refuses them, so only in the exhaustive runs)
          Dynamic, MaxOps, Gen
VARIABLES cfg, ses, nops, log
vars == <<cfg, ses, nops, log>>

\* cfg: sequence of servers [listen, names, sid, apps]
\* listen: sequence of [f, ip, port, def, bind, pp]; name: [k, h]
Addr(l) == [f |-> l.f, ip |-> l.ip, port |-> l.port]
\* all listens, in configuration order, with their server
RECURSIVE Flat(_, _)
Flat(c, i) == IF i > Len(c) THEN <<>>
              ELSE [j \in 1..Len(c[i].listen) |-> [srv |-> i, l |-> c[i].listen[j]]] \o Flat(c, i + 1)
All(c) == Flat(c, 1)
Ran(q) == {q[i] : i \in 1..Len(q)}
Listed(c) == {Addr(x.l) : x \in Ran(All(c))}
\* servers of an address, in order; its default; whether it speaks the proxy protocol
Of(c, a) == LET q == SelectSeq(All(c), LAMBDA x : Addr(x.l) = a) IN [i \in 1..Len(q) |-> q[i].srv]
Default(c, a) == LET q == SelectSeq(All(c), LAMBDA x : Addr(x.l) = a)
                     d == {i \in 1..Len(q) : q[i].l.def}
                 IN IF d = {} THEN q[1].srv ELSE q[CHOOSE i \in d : TRUE].srv
Proxied(c, a) == \E x \in Ran(All(c)) : Addr(x.l) = a /\ x.l.pp
Valid(c) == /\ \A i \in 1..Len(c) : \A j, k \in 1..Len(c[i].listen) : j # k => Addr(c[i].listen[j]) # Addr(c[i].listen[k])
            /\ \A a \in Listed(c) : Cardinality({x \in Ran(All(c)) : Addr(x.l) = a /\ x.l.def}) <= 1
            /\ \/ Binds
               \/ \A x, y \in Ran(All(c)) : (x.l.ip = 0 /\ y.l.ip # 0 /\ x.l.f = y.l.f /\ x.l.port = y.l.port) => ~y.l.bind

\* ---- the address rule
Nowhere == [f |-> 0, ip |-> 0, port |-> 0]
Where(c, at) == IF at \in Listed(c) THEN at
                ELSE IF [at EXCEPT !.ip = 0] \in Listed(c) THEN [at EXCEPT !.ip = 0] ELSE Nowhere

\* ---- the implementation: conf_addrs of one port in order of first appearance
RECURSIVE First(_, _, _)
First(q, i, acc) ==
  IF i > Len(q) THEN acc
  ELSE LET same == {k \in 1..Len(acc) : acc[k].a = Addr(q[i].l)}
       IN IF same = {} THEN First(q, i + 1, Append(acc, [a |-> Addr(q[i].l), bind |-> q[i].l.bind, wild |-> q[i].l.ip = 0]))
          ELSE First(q, i + 1, acc)
Cmp(x, y) == IF x.wild THEN 1 ELSE IF y.wild THEN -1 ELSE IF x.bind /\ ~y.bind THEN -1 ELSE IF ~x.bind /\ y.bind THEN 1 ELSE 0
\* insertion sort from the left, as ngx_sort
RECURSIVE Ins(_, _)
Ins(s, x) == IF s = <<>> THEN <<x>>
             ELSE IF Cmp(s[Len(s)], x) > 0 THEN Append(Ins(SubSeq(s, 1, Len(s) - 1), x), s[Len(s)]) ELSE Append(s, x)
RECURSIVE Sort(_, _)
Sort(q, acc) == IF q = <<>> THEN acc ELSE Sort(Tail(q), Ins(acc, Head(q)))
\* sockets bound for a port: <<bound address, addresses to compare with (the last by default)>>
RECURSIVE Bind(_, _, _)
Bind(ad, i, wildcard) ==
  IF ad = <<>> THEN <<>>
  ELSE IF i > Len(ad) THEN <<>>
  ELSE IF wildcard /\ ~ad[i].bind THEN Bind(ad, i + 1, wildcard)
  ELSE IF i = Len(ad) THEN <<[at |-> ad[i].a, cand |-> ad]>>
  ELSE <<[at |-> ad[i].a, cand |-> <<ad[1]>>]>> \o Bind(Tail(ad), 1, wildcard)
PortAddrs(c, f, p) == Sort(First(SelectSeq(All(c), LAMBDA x : x.l.f = f /\ x.l.port = p), 1, <<>>), <<>>)
Sockets(c, f, p) ==
  LET ad == PortAddrs(c, f, p)
      w == ad # <<>> /\ ad[Len(ad)].wild
      ad2 == IF w THEN [ad EXCEPT ![Len(ad)].bind = TRUE] ELSE ad
  IN Bind(ad2, 1, w)
ImplWhere(c, at) ==
  LET so == Ran(Sockets(c, at.f, at.port))
      exact == {x \in so : x.at = at}
      wild == {x \in so : x.at.ip = 0}
      \* what the kernel does
      s == IF exact # {} THEN CHOOSE x \in exact : TRUE ELSE IF wild # {} THEN CHOOSE x \in wild : TRUE ELSE [at |-> Nowhere, cand |-> <<>>]
      hit == {i \in 1..(Len(s.cand) - 1) : s.cand[i].a = at}
  IN IF s.cand = <<>> THEN Nowhere ELSE s.cand[IF hit = {} THEN Len(s.cand) ELSE CHOOSE i \in hit : TRUE].a
\* every address is bound exactly once, and those not bound are under a wildcard
BindsOk(c, f, p) ==
  LET so == Sockets(c, f, p) IN
  /\ \A i, j \in 1..Len(so) : so[i].at = so[j].at => i = j
  \* the kernel refuses an address next to its wildcard: never bound unless asked for
  /\ (\E x \in Ran(so) : x.at.ip = 0) => \A x \in Ran(so) : x.at.ip = 0 \/ x.cand[1].bind
  /\ \A a \in {x \in Listed(c) : x.f = f /\ x.port = p} : (\E x \in Ran(so) : x.at = a) \/ (\E x \in Ran(so) : x.at.ip = 0)

\* ---- names
Suffix(h, x) == Len(h) < Len(x) /\ SubSeq(x, Len(x) - Len(h) + 1, Len(x)) = h
Prefix(h, x) == Len(h) < Len(x) /\ SubSeq(x, 1, Len(h)) = h
\* the names competing for an address, in order
RECURSIVE NamesOf(_, _)
NamesOf(c, q) == IF q = <<>> THEN <<>>
                 ELSE [i \in 1..Len(c[q[1]].names) |-> [srv |-> q[1], n |-> c[q[1]].names[i]]] \o NamesOf(c, Tail(q))
Best(q, T(_)) == LET m == {i \in 1..Len(q) : T(q[i].n)} IN
                 IF m = {} THEN 0
                 ELSE LET long == {i \in m : \A j \in m : Len(q[j].n.h) <= Len(q[i].n.h)}
                      IN q[CHOOSE i \in long : \A j \in long : i <= j].srv
FirstOf(q, T(_)) == LET m == {i \in 1..Len(q) : T(q[i].n)} IN IF m = {} THEN 0 ELSE q[CHOOSE i \in m : \A j \in m : i <= j].srv
Server(c, a, host) ==
  LET q == NamesOf(c, Of(c, a))
      ex == FirstOf(q, LAMBDA n : n.k \in {"exact", "dot"} /\ n.h = host)
      le == Best(q, LAMBDA n : n.k \in {"lead", "dot"} /\ Suffix(n.h, host))
      tr == Best(q, LAMBDA n : n.k = "trail" /\ Prefix(n.h, host))
      re == FirstOf(q, LAMBDA n : n.k = "re" /\ Len(host) > 1 /\ host[1] = n.h[1])
  IN IF ex # 0 THEN ex ELSE IF le # 0 THEN le ELSE IF tr # 0 THEN tr ELSE IF re # 0 THEN re ELSE Default(c, a)
\* names which the server refuses to tell apart are not generated
Clash(c, a) == LET q == NamesOf(c, Of(c, a)) IN
  \E i, j \in 1..Len(q) : q[i].n.h = q[j].n.h /\ q[i].n.k # q[j].n.k /\ q[i].n.k \in {"exact", "lead", "dot"} /\ q[j].n.k \in {"exact", "lead", "dot"}

\* ---- a request: address of arrival, host, application; the outcome
NoRoute == [srv |-> 0, app |-> "", sid |-> 0]
AppOf(c, s, app) == IF app \in c[s].apps THEN app ELSE IF "*" \in c[s].apps THEN "*" ELSE ""
Route(c, at, host, app) ==
  LET a == Where(c, at) IN
  IF a = Nowhere THEN NoRoute
  ELSE LET s == Server(c, a, host) IN
       IF AppOf(c, s, app) = "" THEN NoRoute ELSE [srv |-> s, app |-> AppOf(c, s, app), sid |-> c[s].sid]

----------------------------------------------------------------------------
Idle == [role |-> "idle"]
Emit(r) == /\ nops' = nops + 1 /\ log' = IF Gen THEN Append(log, r) ELSE log
Key(se) == <<se.sid, se.app, se.name>>
Pubs(k) == {y \in Slots : IF ses[y].role = "publish" THEN Key(ses[y]) = k ELSE FALSE}
\* applications which do not keep players without a publisher
IdleOff(s, app) == (s + (IF app = "x" THEN 0 ELSE IF app = "xy" THEN 1 ELSE 2)) % 3 = 0
Plays(k) == {y \in Slots : IF ses[y].role = "play" THEN Key(ses[y]) = k ELSE FALSE}
Ats == {a \in [f : Families, ip : Ips \cup {9}, port : Ports] : a.ip # 0 /\ (a.f = 6 => a.ip = 1)}
Reach(c, at) == Where(c, at) # Nowhere
\* a client publishes or plays (act) a name
Ask(x, at, host, app, name, act, form) ==
  /\ ses[x] = Idle /\ nops < MaxOps /\ Reach(cfg, at)
  /\ LET r == Route(cfg, at, host, app)
         k == <<r.sid, app, name>>
         ok == r.srv # 0 /\ IF act = "play" THEN Pubs(k) # {} \/ ~IdleOff(r.srv, r.app) ELSE Pubs(k) = {}
     IN /\ ses' = IF ok THEN [ses EXCEPT ![x] = [role |-> act, srv |-> r.srv, conf |-> r.app, sid |-> r.sid, app |-> app, name |-> name]] ELSE ses
        /\ Emit([a |-> act, s |-> x, at |-> at, addr |-> Where(cfg, at), pp |-> Proxied(cfg, Where(cfg, at)), host |-> host, app |-> app, name |-> name, form |-> form,
                 lim |-> Default(cfg, Where(cfg, at)), r |-> r, ok |-> ok, live |-> r.srv # 0 /\ Pubs(k) # {}])
  /\ UNCHANGED cfg
\* what a publisher sends reaches the players with its service id, application and name
Send(x) == /\ ses[x].role = "publish" /\ nops < MaxOps
           /\ Emit([a |-> "send", s |-> x, to |-> Plays(Key(ses[x]))])
           /\ UNCHANGED <<cfg, ses>>
\* a publisher of such an application takes the players of its stream with it
With(x) == {x} \cup IF ses[x].role = "publish" /\ IdleOff(ses[x].srv, ses[x].conf) THEN Plays(Key(ses[x])) ELSE {}
Leave(x) == /\ ses[x] # Idle /\ nops < MaxOps
            /\ ses' = [y \in Slots |-> IF y \in With(x) THEN Idle ELSE ses[y]]
            /\ Emit([a |-> "leave", s |-> x, also |-> With(x) \ {x}]) /\ UNCHANGED cfg

Listens == {[f |-> f, ip |-> i, port |-> p, def |-> d, bind |-> b, pp |-> FALSE] :
              f \in Families, i \in Ips, p \in Ports, d \in BOOLEAN, b \in BOOLEAN}
Seqs(S, n) == UNION {[1..k -> S] : k \in 1..n}
NameSet == {[k |-> k, h |-> h] : k \in {"exact", "lead", "dot", "trail"}, h \in Hosts} \cup {[k |-> "re", h |-> <<l>>] : l \in Labels}
Srv1 == {[listen |-> l, names |-> n, sid |-> 1, apps |-> {"*"}] : l \in Seqs(Listens, MaxListen), n \in UNION {[1..k -> NameSet] : k \in 0..MaxNames}}
Init == /\ IF Gen THEN cfg = <<>>
           ELSE \E q \in [1..NSrv -> Srv1] : Valid([i \in 1..NSrv |-> [q[i] EXCEPT !.sid = i]]) /\ cfg = [i \in 1..NSrv |-> [q[i] EXCEPT !.sid = i]]
        /\ ses = [x \in Slots |-> Idle] /\ nops = 0 /\ log = <<>>
Next == /\ Dynamic
        /\ \E x \in Slots : \/ Leave(x) \/ Send(x)
                            \/ \E at \in Ats, h \in Hosts, ap \in Apps, n \in Names, act \in {"publish", "play"} : Ask(x, at, h, ap, n, act, "host")
Spec == Init /\ [][Next]_vars
View == <<cfg, ses>>

----------------------------------------------------------------------------
\* properties
AddrSame == \A at \in Ats : ImplWhere(cfg, at) = Where(cfg, at)
Bound == \A f \in Families, p \in Ports : BindsOk(cfg, f, p)
\* a server which a connection is given to lists its address and, unless it is the default, is named by the host
Deserved == \A at \in Ats, h \in Hosts :
  LET a == Where(cfg, at) IN
  a # Nowhere => LET s == Server(cfg, a, h) IN
    /\ s \in Ran(Of(cfg, a))
    /\ s # Default(cfg, a) => \E n \in Ran(cfg[s].names) : n.h = h \/ Suffix(n.h, h) \/ Prefix(n.h, h) \/ n.h[1] = h[1]
\* an exact name wins over everything else
ExactWins == \A at \in Ats, i \in 1..Len(cfg) : \A n \in Ran(cfg[i].names) :
  LET a == Where(cfg, at) IN
  (a # Nowhere /\ n.k = "exact" /\ i \in Ran(Of(cfg, a))) =>
     \E m \in Ran(cfg[Server(cfg, a, n.h)].names) : m.k \in {"exact", "dot"} /\ m.h = n.h
\* sessions of servers with different service ids never share a stream
Apart == \A x, y \in Slots : (ses[x] # Idle /\ ses[y] # Idle) =>
            (Key(ses[x]) = Key(ses[y]) => ses[x].sid = ses[y].sid)
OnePublisher == \A x, y \in Slots : (ses[x].role = "publish" /\ ses[y].role = "publish" /\ x # y) => Key(ses[x]) # Key(ses[y])
Undisturbed == [][\A x, y \in Slots : (x # y /\ ses'[x] # ses[x] /\ ses[y] # Idle /\ (IF ses[x] # Idle THEN Key(ses[y]) # Key(ses[x]) ELSE TRUE)) => ses'[y] = ses[y]]_vars

----------------------------------------------------------------------------
\* generation
R(S) == RandomElement({x \in S : nops >= 0})
Pick(q) == q[R(1..Len(q))]
RListen(i) == [f |-> Pick(<<4, 4, 6>>), ip |-> Pick(<<0, 0, 1, 2>>), port |-> Pick(<<1, 1, 2>>), def |-> TRUE,
            bind |-> TRUE, pp |-> TRUE]
\* the listen directive takes one option, that of an IPv6 wildcard is ipv6only
Fix(l) == LET o == R(1..4)
              w == l.f = 6 /\ l.ip = 0
          IN [l EXCEPT !.ip = IF l.f = 6 /\ @ = 2 THEN 1 ELSE @, !.def = @ /\ o = 1 /\ ~w, !.bind = @ /\ o = 2 /\ ~w, !.pp = @ /\ o = 3 /\ ~w]
RECURSIVE Uniq(_, _)
Uniq(q, seen) == IF q = <<>> THEN <<>> ELSE IF Addr(q[1]) \in seen THEN Uniq(Tail(q), seen) ELSE <<q[1]>> \o Uniq(Tail(q), seen \cup {Addr(q[1])})
RName(i) == LET k == Pick(<<"exact", "lead", "lead", "dot", "trail", "trail", "trail", "re">>) IN
         IF k = "re" THEN [k |-> k, h |-> <<R(Labels)>>] ELSE [k |-> k, h |-> IF k = "exact" THEN R(Hosts) ELSE R({h \in Hosts : Len(h) < 3})]
RSrv(i) == [listen |-> Uniq([j \in 1..R(1..3) |-> Fix(RListen(j))], {}),
            names |-> [j \in 1..R(0..5) |-> RName(j)], sid |-> Pick(<<0, 1, 2, 3>>),
            apps |-> {x \in {"x", "xy", "*"} : R(1..4) > 1}]
\* drop what makes a configuration invalid
Mend(c) == [i \in 1..Len(c) |-> [c[i] EXCEPT !.listen = [j \in 1..Len(c[i].listen) |->
               [c[i].listen[j] EXCEPT
                  !.def = @ /\ ~\E q \in 1..(i - 1) : \E z \in Ran(c[q].listen) : Addr(z) = Addr(c[i].listen[j]) /\ z.def,
                  !.bind = @ /\ ~\E q \in 1..Len(c) : \E z \in Ran(c[q].listen) : z.f = c[i].listen[j].f /\ z.port = c[i].listen[j].port /\ z.ip = 0]]]]
Configure ==
  /\ nops = 0
  /\ \E n \in {R(1..4)} : \E c0 \in {[i \in 1..n |-> RSrv(i)]} : \E c \in {Mend(c0)} :
       IF \A a \in Listed(c) : ~Clash(c, a)
       THEN /\ cfg' = c /\ log' = <<[a |-> "configure", cfg |-> c]>> /\ nops' = 1
       ELSE UNCHANGED <<cfg, log, nops>>
  /\ ses' = ses
GenNext ==
  \/ Configure
  \/ /\ nops > 0
     /\ \E x \in {R(Slots)} : \E at \in {R({a \in Ats : Reach(cfg, a)})}, h \in {R(Hosts)}, ap \in {R(Apps)}, n \in {R(Names)}, act \in {R({"publish", "play"})},
           fo \in {Pick(<<"host", "host", "port", "user", "ip", "args", "definst", "slash", "flv", "flv">>)} :
          IF ses[x].role = "publish" /\ R(1..3) > 1 THEN Send(x)
          ELSE IF ses[x] # Idle THEN Leave(x)
          ELSE Ask(x, at, h, ap, n, IF fo = "flv" THEN "play" ELSE act, fo)
=============================================================================
