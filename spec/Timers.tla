------------------------------- MODULE Timers -------------------------------
(***************************************************************************)
(* Debugged timers (ngx_timerd, one per event) and the event timer slots   *)
(* (ngx_event_timer_module).  Time is in ms; like all nginx timers, arming *)
(* an armed timer again moves it only when it moves by Lazy or more.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ts, Es, NSlots, Lazy, Delays, Ticks, MaxOps, Gen
VARIABLES now,
          exp,    \* timer: when it fires, -1: not armed
          act,    \* timer: what its handler does: [a, t, j]
          eexp,   \* event timer: when it fires, -1
          edel,   \* event timer: the one its handler deletes (0: none)
          nops,
          last,   \* ghost: what fired in the last step
          log
vars == <<now, exp, act, eexp, edel, nops, last, log>>

Nop == [a |-> "n", t |-> 0, j |-> 0]
Init == /\ now = 0 /\ exp = [i \in Ts |-> -1] /\ act = [i \in Ts |-> Nop] /\ eexp = [i \in Es |-> -1]
        /\ edel = [i \in Es |-> 0] /\ nops = 0 /\ last = <<>> /\ log = <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
\* when timer i fires after it is armed for t at time n
Armed(x, n, t) == IF x # -1 /\ Abs(n + t - x) < Lazy THEN x ELSE n + t
Busy(x, y) == {x[i] : i \in Ts} \cup {y[i] : i \in Es}
Emit(e, err) ==
  /\ nops' = nops + 1
  /\ log' = IF ~Gen THEN log ELSE Append(log, e @@ [err |-> err, set |-> {i \in Ts : exp'[i] # -1},
                                                   free |-> NSlots - Cardinality({i \in Es : eexp'[i] # -1}), fired |-> last'])
Acts(i) == {Nop} \cup {[a |-> "r", t |-> t, j |-> 0] : t \in Delays} \cup {[a |-> "a", t |-> t, j |-> j] : t \in Delays, j \in Ts \ {i}}
           \cup {[a |-> "d", t |-> 0, j |-> j] : j \in Ts} \cup {[a |-> "q", t |-> t, j |-> j] : t \in Delays, j \in Ts}

Arm(i, t, c) ==
  LET x == Armed(exp[i], now, t)
  IN /\ nops < MaxOps /\ (x = exp[i] \/ x \notin Busy(exp, eexp))
     /\ exp' = [exp EXCEPT ![i] = x] /\ act' = [act EXCEPT ![i] = c] /\ last' = <<>>
     /\ UNCHANGED <<now, eexp, edel>> /\ Emit([a |-> "arm", i |-> i, t |-> t, c |-> c], "")
\* another owner of the same event neither arms nor deletes it
Foreign(i, t) ==
  /\ nops < MaxOps /\ exp[i] # -1 /\ last' = <<>>
  /\ UNCHANGED <<now, exp, act, eexp, edel>> /\ Emit([a |-> "foreign", i |-> i, t |-> t, c |-> Nop], "")
Del(i) ==     \* also when it is not armed: no effect
  /\ nops < MaxOps /\ exp' = [exp EXCEPT ![i] = -1] /\ last' = <<>>
  /\ UNCHANGED <<now, act, eexp, edel>> /\ Emit([a |-> "del", i |-> i, t |-> 0, c |-> Nop], "")
EAdd(i, t, j) ==
  /\ nops < MaxOps /\ eexp[i] = -1 /\ (now + t) \notin Busy(exp, eexp) /\ last' = <<>>
  /\ LET full == Cardinality({x \in Es : eexp[x] # -1}) >= NSlots
     IN /\ eexp' = IF full THEN eexp ELSE [eexp EXCEPT ![i] = now + t]
        /\ edel' = IF full THEN edel ELSE [edel EXCEPT ![i] = j]
        /\ UNCHANGED <<now, exp, act>> /\ Emit([a |-> "eadd", i |-> i, t |-> t, c |-> [Nop EXCEPT !.j = j]], IF full THEN "full" ELSE "ok")
EDel(i, a) ==  \* a = "edtwice": the second time has no effect
  /\ nops < MaxOps /\ eexp[i] # -1 /\ eexp' = [eexp EXCEPT ![i] = -1] /\ last' = <<>>
  /\ UNCHANGED <<now, exp, act, edel>> /\ Emit([a |-> a, i |-> i, t |-> 0, c |-> Nop], "")

\* everything due at time n, in order; x: [e: exp, c: act, ee: eexp, f: fired, ok: no two at once]
RECURSIVE Run(_, _)
Run(x, n) ==
  LET due == {v \in Busy(x.e, x.ee) : v # -1 /\ v <= n}
  IN IF due = {} THEN x
     ELSE LET v == CHOOSE v \in due : \A w \in due : v <= w
          IN IF \E i \in Ts : x.e[i] = v
             THEN LET i == CHOOSE i \in Ts : x.e[i] = v
                      c == x.c[i]
                      y == [x EXCEPT !.e[i] = -1, !.c[i] = Nop, !.f = Append(@, i)]
                      k == IF c.a = "r" THEN i ELSE c.j
                      z == Armed(y.e[k], n, c.t)
                  IN Run(IF c.a \in {"r", "a"} THEN [y EXCEPT !.e[k] = z, !.ok = @ /\ (z = y.e[k] \/ z \notin Busy(y.e, y.ee))]
                         ELSE IF c.a \in {"d", "q"} THEN [y EXCEPT !.e[k] = -1] ELSE y, n)
             ELSE LET i == CHOOSE i \in Es : x.ee[i] = v
                      y == [x EXCEPT !.ee[i] = -1, !.f = Append(@, 100 + i)]
                      j == edel[i]
                  IN Run(IF j # 0 THEN [y EXCEPT !.ee[j] = -1] ELSE y, n)

Tick(d) ==
  LET r == Run([e |-> exp, c |-> act, ee |-> eexp, f |-> <<>>, ok |-> TRUE], now + d)
  IN /\ nops < MaxOps /\ r.ok /\ now' = now + d
     /\ exp' = r.e /\ act' = r.c /\ eexp' = r.ee /\ last' = r.f
     /\ UNCHANGED edel /\ Emit([a |-> "tick", i |-> 0, t |-> d, c |-> Nop], "")

Next ==
  \/ \E i \in Ts, t \in Delays, c \in UNION {Acts(x) : x \in Ts} : c \in Acts(i) /\ Arm(i, t, c)
  \/ \E i \in Ts : Del(i) \/ Foreign(i, 500)
  \/ \E i \in Es, t \in Delays, j \in Es \cup {0} : EAdd(i, t, j)
  \/ \E i \in Es, a \in {"edel", "edtwice"} : EDel(i, a)
  \/ \E d \in Ticks : Tick(d)
Spec == Init /\ [][Next]_vars

R(S) == {RandomElement({x \in S : nops >= 0})}
GenNext ==
  LET r == RandomElement({x \in 1..100 : nops >= 0})
  IN IF r <= 35 THEN \E i \in R(Ts), t \in R(Delays) : \E c \in R(Acts(i)) : IF ENABLED Arm(i, t, c) THEN Arm(i, t, c) ELSE Del(i)
     ELSE IF r <= 43 THEN \E i \in R(Ts) : Del(i)
     ELSE IF r <= 48 THEN \E i \in R(Ts) : IF exp[i] # -1 THEN Foreign(i, 500) ELSE Del(i)
     ELSE IF r <= 62 THEN \E i \in R(Es), t \in R(Delays) : \E j \in R(Es \cup {0}) :
                          IF eexp[i] # -1 THEN EDel(i, IF r % 3 = 0 THEN "edtwice" ELSE "edel") ELSE IF (now + t) \in Busy(exp, eexp) THEN Del(1) ELSE EAdd(i, t, j)
     ELSE \E d \in R(Ticks) : IF Run([e |-> exp, c |-> act, ee |-> eexp, f |-> <<>>, ok |-> TRUE], now + d).ok THEN Tick(d) ELSE Tick(1)

\* nothing which is overdue is still armed, nothing fired that was not armed
NotLate == (last # <<>> \/ nops > 0) => \A i \in Ts : exp[i] = -1 \/ exp[i] >= 0
NoOverdue == [][(now' # now) => \A i \in Ts : exp'[i] = -1 \/ exp'[i] > now']_vars
OnlyArmed == [][\A k \in 1..Len(last') : LET f == last'[k] IN
                  IF f > 100 THEN eexp[f - 100] # -1 /\ eexp[f - 100] <= now'
                  ELSE exp[f] # -1 /\ exp[f] <= now']_vars
Once == \A a, b \in 1..Len(last) : a # b => last[a] # last[b]
Slots == Cardinality({i \in Es : eexp[i] # -1}) <= NSlots
=============================================================================
