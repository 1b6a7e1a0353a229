------------------------------ MODULE DynConf ------------------------------
(***************************************************************************)
(* The dynamic configuration: a file which is edited at any time, and      *)
(* workers which look at it now and then and take over what it says.  A    *)
(* look has two steps: is it another version (Sum), and, if so, what does  *)
(* it say (Load); it may be edited in between.                             *)
(*   version: [bad |-> "" or what is wrong with it, i, s, http, rtmp]      *)
(*   http: [has, m, servers: sequence of [names, v, locs: [k, p, l]]]      *)
(*   rtmp: [has, servers: sequence of [names, id]]                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Workers, Versions, First, Gen, MaxEdits

VARIABLES name,   \* the file: inode, 0: none, -1: a directory
          cont,   \* inode: version
          act,    \* worker: version in force
          key,    \* worker: the version it takes the file for when it is unchanged
          mid,    \* worker: inode it has found to be another version, 0: none
          seen,   \* ghost: versions which were ever complete in the file
          log

vars == <<name, cont, act, key, mid, seen, log>>
Ok(v) == v.bad = ""

----------------------------------------------------------------------------
(* what a version says to a request *)
Doms == <<"a.x", "b.x", "c.d.x", "a.y", "q.z", "r7.z">>
Pats == <<"a.x", "b.x", "*.x", ".x", "a.*", "~r\\d">>
Hit == [p \in {Pats[i] : i \in 1..Len(Pats)} |->
        CASE p = "a.x" -> {"a.x"} [] p = "b.x" -> {"b.x"} [] p = "*.x" -> {"a.x", "b.x", "c.d.x"}
          [] p = ".x" -> {"a.x", "b.x", "c.d.x"} [] p = "a.*" -> {"a.x", "a.y"} [] OTHER -> {"r7.z"}]
Rank(p) == IF p \in {"a.x", "b.x"} THEN 1 ELSE IF p \in {"*.x", ".x"} THEN 2 ELSE IF p = "a.*" THEN 3 ELSE 4
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE a \in S : \A b \in S : a <= b IN <<x>> \o SetSeq(S \ {x})
\* the server a domain leads to: the best kind of name, then the first
Serv(svs, d) ==
  LET m(r) == {i \in 1..Len(svs) : \E j \in 1..Len(svs[i].names) : d \in Hit[svs[i].names[j]] /\ Rank(svs[i].names[j]) = r}
      rs == {r \in 1..4 : m(r) # {}}
  IN IF svs = <<>> THEN 0
     ELSE IF rs = {} THEN 1
     ELSE LET r == CHOOSE a \in rs : \A b \in rs : a <= b IN Head(SetSeq(m(r)))

Uris == <<"/", "/p", "/p/q", "/p/q.gif", "/z", "/z.gif">>
Pre == [p \in {"/", "/p", "/p/q"} |-> CASE p = "/" -> {Uris[i] : i \in 1..Len(Uris)}
                                        [] p = "/p" -> {"/p", "/p/q", "/p/q.gif"} [] OTHER -> {"/p/q", "/p/q.gif"}]
Rex == [p \in {"gif$", "^/p"} |-> IF p = "gif$" THEN {"/p/q.gif", "/z.gif"} ELSE {"/p", "/p/q", "/p/q.gif"}]
PLen == [p \in {"/", "/p", "/p/q"} |-> CASE p = "/" -> 1 [] p = "/p" -> 2 [] OTHER -> 4]
Loc(locs, u) ==
  LET ex == {i \in 1..Len(locs) : locs[i].k = "=" /\ locs[i].p = u}
      pr == {i \in 1..Len(locs) : locs[i].k \in {"", "^~"} /\ u \in Pre[locs[i].p]}
      best == {i \in pr : \A j \in pr : PLen[locs[i].p] >= PLen[locs[j].p]}
      rx == {i \in 1..Len(locs) : locs[i].k = "~" /\ u \in Rex[locs[i].p]}
  IN IF ex # {} THEN Head(SetSeq(ex))
     ELSE IF best # {} /\ locs[Head(SetSeq(best))].k = "^~" THEN Head(SetSeq(best))
     ELSE IF rx # {} THEN Head(SetSeq(rx))
     ELSE IF best # {} THEN Head(SetSeq(best)) ELSE 0

Null == "null"
NoHttp == [has |-> FALSE, m |-> "", servers |-> <<>>]
NoRtmp == [has |-> FALSE, servers |-> <<>>]
Http(v, d, u) ==
  IF ~v.http.has THEN [m |-> Null, v |-> Null, l |-> Null]
  ELSE LET h == v.http.servers
           n == Serv(h, d)
       IN IF n = 0 THEN [m |-> v.http.m, v |-> Null, l |-> Null]
          ELSE LET k == Loc(h[n].locs, u)
               IN [m |-> v.http.m, v |-> h[n].v, l |-> IF k = 0 THEN Null ELSE h[n].locs[k].l]
Service(v, d) ==
  IF ~v.rtmp.has THEN "base"
  ELSE LET n == Serv(v.rtmp.servers, d) IN IF n = 0 \/ v.rtmp.servers[n].id = "" THEN "base" ELSE v.rtmp.servers[n].id

----------------------------------------------------------------------------
See(v, d, u) == Http(v, d, u) @@ [n |-> v.n, i |-> v.i, s |-> v.s, id |-> Service(v, d)]
Ev(a, w, v, v2, d, u) ==
  IF Gen THEN log' = Append(log, [a |-> a, w |-> w, v |-> v, v2 |-> v2, d |-> d, u |-> u,
                                  mid |-> See(v, d, u), was |-> [x \in Workers |-> See(act[x], d, u)], see |-> [x \in Workers |-> See(act'[x], d, u)]])
         ELSE UNCHANGED log

Init ==
  /\ name = 1 /\ cont = <<First>> /\ act = [w \in Workers |-> First] /\ key = act
  /\ mid = [w \in Workers |-> 0] /\ seen = {First} /\ log = <<>>

Rename(v) ==
  /\ Len(cont) <= MaxEdits /\ cont' = Append(cont, v) /\ name' = Len(cont) + 1 /\ seen' = seen \cup {v}
  /\ UNCHANGED <<act, key, mid, log>>
InPlace(v) ==
  /\ name > 0 /\ cont[name] # v /\ Cardinality(seen) <= MaxEdits
  /\ cont' = [cont EXCEPT ![name] = v] /\ seen' = seen \cup {v} /\ UNCHANGED <<name, act, key, mid, log>>
Gone(n) ==
  /\ name > 0 /\ name' = n /\ UNCHANGED <<cont, act, key, mid, seen, log>>

Sum(w) ==
  /\ mid[w] = 0 /\ name > 0 /\ cont[name] # key[w]
  /\ mid' = [mid EXCEPT ![w] = name] /\ UNCHANGED <<name, cont, act, key, seen, log>>
Load(w) ==
  /\ mid[w] # 0 /\ mid' = [mid EXCEPT ![w] = 0]
  /\ LET v == cont[mid[w]] IN
     IF Ok(v) THEN act' = [act EXCEPT ![w] = v] /\ key' = [key EXCEPT ![w] = v] ELSE UNCHANGED <<act, key>>
  /\ UNCHANGED <<name, cont, seen, log>>
\* a worker dies, and the one which follows reads the file
Respawn(w) ==
  /\ name > 0 /\ Ok(cont[name]) /\ mid' = [mid EXCEPT ![w] = 0]
  /\ act' = [act EXCEPT ![w] = cont[name]] /\ key' = [key EXCEPT ![w] = cont[name]]
  /\ UNCHANGED <<name, cont, seen, log>>

Next ==
  \/ \E v \in Versions : Rename(v) \/ InPlace(v)
  \/ Gone(0) \/ Gone(-1)
  \/ \E w \in Workers : Sum(w) \/ Load(w) \/ Respawn(w)

Fair == \A w \in Workers : WF_vars(Sum(w)) /\ WF_vars(Load(w))
Spec == Init /\ [][Next]_vars /\ Fair

\* what is in force is a complete valid version which the file had
Whole == \A w \in Workers : act[w] \in seen /\ Ok(act[w])
\* only a worker which loads changes
Kept == [][\A w \in Workers : act'[w] # act[w] => Ok(act'[w])]_act
\* and the newest comes into force
Newest == \A v \in Versions \cup {First} : \A w \in Workers :
  Ok(v) => (<>[](name > 0 /\ cont[name] = v) => <>[](act[w] = v))

----------------------------------------------------------------------------
(* generation: the steps between which everything has settled *)
R(S) == {RandomElement({x \in S : Len(log) >= 0})}
One(S) == RandomElement({x \in S : Len(log) >= 0})
Upto(k) == 1..One(1..k)
GNames == [j \in Upto(2) |-> Pats[One(1..Len(Pats))]]
Places == {[k |-> "=", p |-> "/p/q"], [k |-> "=", p |-> "/z"], [k |-> "=", p |-> "/"], [k |-> "~", p |-> "gif$"], [k |-> "~", p |-> "^/p"]}
          \cup {[k |-> k, p |-> p] : k \in {"", "^~"}, p \in {"/", "/p", "/p/q"}}
GLoc(j, z) == One(Places) @@ [l |-> "l" \o ToString(z) \o ToString(j)]
GServer(z, j) == [names |-> GNames, v |-> "v" \o ToString(z) \o ToString(j), locs |-> [m \in Upto(4) |-> GLoc(10 * j + m, z)]]
GRtmp(z, j) == [names |-> GNames, id |-> IF One(1..4) = 1 THEN "" ELSE "s" \o ToString(z) \o ToString(j)]
\* the same name or location twice is no valid version
Twice(v) ==
  \/ \E i \in 1..Len(v.http.servers) : LET l == v.http.servers[i].locs IN
       \E j, k \in 1..Len(l) : j < k /\ l[j].p = l[k].p /\ l[j].k # "~" /\ l[k].k # "~" /\ ((l[j].k = "=") = (l[k].k = "="))
\* names which are several times in a file are not generated: which one is
\* taken is not said (a warning is given)
Clash(svs) == \E i, j \in 1..Len(svs) : \E x \in 1..Len(svs[i].names), y \in 1..Len(svs[j].names) :
  (i # j \/ x < y) /\ (svs[i].names[x] = svs[j].names[y] \/ {svs[i].names[x], svs[j].names[y]} = {"*.x", ".x"}
)
Bads == {"unknown", "semicolon", "brace", "open", "args", "twice", "number", "place", "quote", "name", "init", "late", "block", "regex", "long"}
Fresh(z, hs, rs) ==
  [n |-> z, bad |-> IF One(1..5) <= 2 THEN One(Bads) ELSE "", i |-> One({1000, 1, 2, 3}), s |-> IF One(1..4) = 1 THEN "" ELSE "s" \o ToString(z),
   http |-> IF Clash(hs) THEN NoHttp ELSE IF One(1..6) = 1 THEN NoHttp ELSE [has |-> TRUE, m |-> "m" \o ToString(z), servers |-> hs],
   rtmp |-> IF Clash(rs) THEN NoRtmp ELSE IF One(1..6) = 1 THEN NoRtmp ELSE [has |-> TRUE, servers |-> rs]]
Sane(v) == IF Ok(v) /\ Twice(v) THEN [v EXCEPT !.bad = "locations"] ELSE v
\* the versions the file may be edited to next; a version is made in two steps, so that
\* what was drawn at random is the same wherever it is used
Some(P(_)) ==
  \E x \in R(1..10) :
    IF x <= 4 THEN \E v \in R(seen) : P(v)
    ELSE \E z \in R({Cardinality(seen) * 1000 + k : k \in 1..999}) :
         \E hs \in {TLCEval(IF x = 5 THEN <<>> ELSE [j \in Upto(3) |-> GServer(z, j)])}, rs \in {TLCEval(IF x = 6 THEN <<>> ELSE [j \in Upto(3) |-> GRtmp(z, j)])} :
         \E v \in {Sane(Fresh(z, hs, rs))} : P(v)

GQuery ==
  /\ UNCHANGED <<name, cont, act, key, mid, seen>>
  /\ \E d \in R({Doms[i] : i \in 1..Len(Doms)}), u \in R({Uris[i] : i \in 1..Len(Uris)}) : Ev("query", 0, First, First, d, u)

Settle(v, a) == IF Ok(v) THEN [w \in Workers |-> v] ELSE a
GEdit ==
  Some(LAMBDA v :
    /\ cont' = <<v>> /\ name' = 1 /\ seen' = seen \cup {v} /\ act' = Settle(v, act) /\ key' = act' /\ UNCHANGED mid
    /\ \E d \in R({Doms[i] : i \in 1..Len(Doms)}), u \in R({Uris[i] : i \in 1..Len(Uris)}) : Ev("edit", 0, v, v, d, u))
\* edited again while a worker looks at it
GSwap ==
  Some(LAMBDA v1 : Some(LAMBDA v2 :
    IF ~(Ok(v2) /\ v1 # v2 /\ \A w \in Workers : key[w] # v1) THEN GQuery ELSE
    /\ cont' = <<v2>> /\ name' = 1 /\ seen' = seen \cup {v1, v2} /\ act' = Settle(v2, act) /\ key' = act' /\ UNCHANGED mid
    /\ \E d \in R({Doms[i] : i \in 1..Len(Doms)}), u \in R({Uris[i] : i \in 1..Len(Uris)}) : Ev("swap", 0, v1, v2, d, u)))
GGone ==
  /\ name' \in R({0, -1}) /\ UNCHANGED <<cont, act, key, mid, seen>>
  /\ \E d \in R({Doms[i] : i \in 1..Len(Doms)}), u \in R({Uris[i] : i \in 1..Len(Uris)}) : Ev(IF name' = 0 THEN "remove" ELSE "dir", 0, First, First, d, u)
GRespawn(how) ==
  /\ name = 1 /\ Ok(cont[1])
  /\ \E w \in R(Workers) : Some(LAMBDA v2 :
       IF how # "respawn" /\ (~Ok(v2) \/ v2 = cont[1]) THEN GQuery ELSE
       LET f == IF how = "respawn" THEN cont[1] ELSE v2 IN
          /\ cont' = <<f>> /\ seen' = seen \cup {f} /\ act' = IF how = "respawn" THEN [act EXCEPT ![w] = f] ELSE Settle(f, act)
          /\ key' = act' /\ UNCHANGED <<name, mid>>
          /\ \E d \in R({Doms[i] : i \in 1..Len(Doms)}), u \in R({Uris[i] : i \in 1..Len(Uris)}) : Ev(how, w, cont[1], f, d, u))
GenNext ==
  \E r \in R(1..100) :
  IF r <= 40 THEN GEdit
  ELSE IF r <= 55 THEN GSwap
  ELSE IF r <= 62 /\ name = 1 THEN GGone
  ELSE IF r <= 70 /\ name = 1 /\ Ok(cont[1]) THEN \E h \in R({"respawn", "restart"}) : GRespawn(h)
  ELSE GQuery
=============================================================================
