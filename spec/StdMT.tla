---- MODULE StdMT ----
(* C++20 tasks and their managers used by several threads (P08, M04).
   As in TaskMT every thread has a list of steps still to do: silent ones, each of them atomic, and ones that user code sees: a
   body is entered, woken or ends, a coroutine frame is destroyed, a call returns.  Starting and killing a task exclude each
   other by a lock that is only tried: who comes second is refused.  Only bodies that the main thread started wait. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS T, N, NM,   \* threads, tasks, managers
          Features
Thr == 0..T
Ids == 1..N
Ms == 1..NM
VARIABLE s
vars == s
OK == 0  IN_RESET == -104  NOT_FOUND == -1008  EXIST == -1009  EXITING == -3002  OTHER_MGR == -3005
CREATED == 1  RUNNING == 2  DONE == 3  CANCEL == 4  KILLED == 5  TIMEOUT == 6
Z == [i \in Ids |-> 0]
\* lk: being started or killed; ent: body entered; wt: suspended; bf: ended; rf: futures; sr: references to the frame
Init == s = [st |-> [i \in Ids |-> CREATED], w |-> Z, lk |-> Z, ent |-> Z, wt |-> Z, bf |-> Z,
             rf |-> [i \in Ids |-> T + 1], sr |-> [i \in Ids |-> T + 2], own |-> [t \in Thr |-> Ids], gone |-> {},
             th |-> [t \in Thr |-> <<>>],
             mem |-> [m \in Ms |-> {}], bd |-> Z, ex |-> Z, last |-> [m \in Ms |-> 0], rst |-> [m \in Ms |-> 0], tik |-> [m \in Ms |-> 0]]
I(f, i, d, x, b) == <<f, i, d, x, b>>
Top(q, t) == Head(q.th[t])
Put(q, t, l) == [q EXCEPT !.th[t] = l \o Tail(@)]
Pop(q, t) == Put(q, t, <<>>)
RetAt(q, t) == LET fr == q.th[t] IN CHOOSE k \in 1..Len(fr) : fr[k][1] = "ret" /\ \A j \in 1..(k - 1) : fr[j][1] # "ret"
\* the result of the call in progress
Rc(q, t, v) == [q EXCEPT !.th[t][RetAt(q, t)] = I("ret", 0, v, 0, 0)]
RcIf(q, t, b, v) == IF b = 1 THEN Rc(q, t, v) ELSE q
\* the call ends here
Stop(q, t, v) == LET fr == q.th[t] IN [q EXCEPT !.th[t] = <<I("ret", 0, v, 0, 0)>> \o SubSeq(fr, RetAt(q, t) + 1, Len(fr))]
Ended(q, i) == q.st[i] >= DONE
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Frame(i) == I("frame", i, 0, 0, 0)
Leave(q, i, m) == [q EXCEPT !.mem[m] = @ \ {i}, !.ex[i] = 0]
Free(q, i) == [q EXCEPT !.lk[i] = 0]
(* the coroutine gets control *)
Run(q, i) == IF q.wt[i] = 1 THEN I("wk", i, 0, 0, 0) ELSE I("in", i, 0, 0, 0)
Go(q, t) ==
  LET p == Top(q, t) f == p[1] i == p[2] d == p[3] x == p[4] b == p[5] IN
  CASE f = "start" -> {IF q.lk[i] = 1 THEN Pop(RcIf(q, t, b, 0), t) ELSE Put([q EXCEPT !.lk[i] = 1], t, <<I("start2", i, 0, 0, b)>>)}
    [] f = "start2" ->
         {IF q.bf[i] = 1 \/ q.st[i] # CREATED THEN Pop(RcIf(Free(q, i), t, b, 0), t)
          ELSE Put(RcIf([Free(q, i) EXCEPT !.st[i] = RUNNING], t, b, 1), t, <<Run(q, i)>>)}
    [] f = "kill" -> {IF q.lk[i] = 1 THEN Pop(RcIf(q, t, b, 0), t) ELSE Put([q EXCEPT !.lk[i] = 1], t, <<I("kill2", i, d, x, b)>>)}
    [] f = "kill2" ->
         {IF q.bf[i] = 1 \/ Ended(q, i) THEN Pop(RcIf(Free(q, i), t, b, 0), t)
          ELSE LET r == RcIf([q EXCEPT !.st[i] = x], t, b, 1) IN
               IF q.wt[i] = 1 THEN Put(r, t, <<Run(q, i), I("free", i, 0, 0, 0)>>) ELSE Pop(Free(r, i), t)}
    [] f = "free" -> {Pop(Free(q, i), t)}
    \* the end of a body: its status is looked at and written by its own thread, a killer may come between
    [] f = "dn1" -> {Put(q, t, <<I("dn2", i, IF Ended(q, i) THEN 0 ELSE 1, 0, 0)>>)}
    [] f = "dn2" -> {Put([q EXCEPT !.st[i] = IF d = 1 THEN DONE ELSE @, !.bf[i] = 1], t, <<I("unb", i, 0, 0, 0), Frame(i)>>)}
    [] f = "unb" -> {IF q.bd[i] # 0 THEN Put([q EXCEPT !.bd[i] = 0], t, <<I("mdel", i, 0, q.bd[i], 0)>>) ELSE Pop(q, t)}
    [] f = "unref" -> LET r == [q EXCEPT !.rf[i] = @ - 1] IN {IF r.rf[i] = 0 THEN Put(r, t, <<I("ff", i, 0, 0, 0), Frame(i)>>) ELSE Put(r, t, <<Frame(i)>>)}
    [] f = "frame" -> LET r == [q EXCEPT !.sr[i] = @ - 1] IN {IF r.sr[i] = 0 THEN Put(r, t, <<I("del", i, 0, 0, 0)>>) ELSE Pop(r, t)}
    [] f = "ff" -> \* nobody has the task any more
         {IF q.bf[i] = 1 THEN Pop(q, t) ELSE Put([q EXCEPT !.st[i] = IF Ended(q, i) THEN @ ELSE KILLED], t, <<Run(q, i)>>)}
    \* managers
    [] f = "mf" -> {IF q.rst[x] = 1 THEN Stop(q, t, IN_RESET) ELSE Pop(q, t)}
    [] f = "madd1" -> {IF Ended(q, i) THEN Stop(q, t, EXITING) ELSE Pop(q, t)}
    [] f = "madd2" ->
         {IF i \in q.mem[x] THEN Stop(q, t, EXIST)
          ELSE IF q.bd[i] # 0 THEN Stop(q, t, OTHER_MGR)
          ELSE Pop(Rc([q EXCEPT !.mem[x] = @ \cup {i}, !.bd[i] = x, !.ex[i] = IF d = 0 THEN 0 ELSE q.last[x] + d, !.rf[i] = @ + 1, !.sr[i] = @ + 1], t, OK), t)}
    [] f = "madd3" -> \* the task may have ended before it was in
         {IF Ended(q, i) THEN Put(Rc(q, t, EXITING), t, <<I("mdel", i, 0, x, 0)>>) ELSE Pop(q, t)}
    [] f = "mdel" -> \* forget an ended task
         {IF i \in q.mem[x]
          THEN Put(Leave(q, i, x), t, <<I("uncl", i, 0, x, 0), I("killif", i, 0, KILLED, 0), I("unref", i, 0, 0, 0)>>) ELSE Pop(q, t)}
    [] f = "mset" ->
         {IF i \in q.mem[x] THEN Pop(Rc([q EXCEPT !.ex[i] = IF d = 0 THEN 0 ELSE q.last[x] + d], t, OK), t) ELSE Stop(q, t, NOT_FOUND)}
    [] f = "mrem" ->
         {IF i \in q.mem[x] THEN Put(Rc(Leave(q, i, x), t, OK), t, <<I("uncl", i, 0, x, 0), I("killif", i, 0, KILLED, 0), I("unref", i, 0, 0, 0)>>)
          ELSE Stop(q, t, NOT_FOUND)}
    [] f = "uncl" -> {Pop([q EXCEPT !.bd[i] = IF @ = x THEN 0 ELSE @], t)}
    [] f = "killif" -> {IF q.st[i] = RUNNING THEN Put(q, t, <<I("kill", i, d, x, b)>>) ELSE Pop(q, t)}
    [] f = "mgo" ->
         {IF i \in q.mem[x] THEN Put(Rc([q EXCEPT !.rf[i] = @ + 1, !.sr[i] = @ + 1], t, OK), t, <<I("start", i, 0, 0, 0), I("mfin", i, 0, x, 0), I("unref", i, 0, 0, 0)>>)
          ELSE Stop(q, t, NOT_FOUND)}
    [] f = "mfin" -> {IF Ended(q, i) THEN Put(q, t, <<I("mdel", i, 0, x, 0)>>) ELSE Pop(q, t)}
    [] f = "mkill" -> \* b: the manager
         {IF i \notin q.mem[b] THEN Stop(q, t, NOT_FOUND)
          ELSE Put(Rc(Leave(q, i, b), t, OK), t, <<I("uncl", i, 0, b, 0), I("kill", i, d, x, 0), I("unref", i, 0, 0, 0)>>)}
    [] f = "tick" -> \* d: the time
         {IF q.tik[x] = 1 THEN Pop(q, t) ELSE Put([q EXCEPT !.tik[x] = 1], t, <<I("tick2", 0, d, x, 0)>>)}
    [] f = "tick2" ->
         {IF d <= q.last[x] THEN Put(q, t, <<I("tickx", 0, d, x, 0)>>)
          ELSE IF q.rst[x] = 1 THEN Put(Rc(q, t, IN_RESET), t, <<I("tickx", 0, d, x, 0)>>)
          ELSE IF q.last[x] = 0 THEN Put([q EXCEPT !.last[x] = d, !.ex = [k \in Ids |-> IF k \in q.mem[x] /\ q.ex[k] # 0 THEN q.ex[k] + d ELSE q.ex[k]]], t, <<I("tickx", 0, d, x, 0)>>)
          ELSE Put(q, t, <<I("tickl", 0, d, x, 0)>>)}
    [] f = "tickl" ->
         LET due == {k \in q.mem[x] : q.ex[k] # 0 /\ q.ex[k] < d}
             e == Min({q.ex[k] : k \in due})
             k0 == Min({k \in due : q.ex[k] = e})
         IN {IF due = {} THEN Put([q EXCEPT !.last[x] = d], t, <<I("tickx", 0, d, x, 0)>>)
             ELSE Put(Leave(q, k0, x), t, <<I("uncl", k0, 0, x, 0), I("tkill", k0, 0, TIMEOUT, 0), I("unref", k0, 0, 0, 0), p>>)}
    [] f = "tickx" -> {Pop([q EXCEPT !.tik[x] = 0], t)}
    [] f = "tkill" -> {IF Ended(q, i) THEN Pop(q, t) ELSE Put(q, t, <<I("kill", i, d, x, 0)>>)}
    [] f = "reset" ->
         {IF q.rst[x] = 1 THEN Pop(q, t) ELSE Put([q EXCEPT !.rst[x] = 1], t, <<I("reset2", 0, 0, x, 0)>>)}
    [] f = "reset2" ->
         {Put([q EXCEPT !.mem[x] = {}, !.last[x] = 0, !.ex = [k \in Ids |-> IF k \in q.mem[x] THEN 0 ELSE q.ex[k]]], t,
              <<I("runb", 0, q.mem[x], x, 0), I("rkill", 0, q.mem[x], x, 0), I("runref", 0, q.mem[x], x, 0), I("rend", 0, 0, x, 0)>>)}
    [] f = "runb" -> IF d = {} THEN {Pop(q, t)} ELSE {Put(q, t, <<I("uncl", k, 0, x, 0), I("runb", 0, d \ {k}, x, 0)>>) : k \in d}
    [] f = "rkill" -> IF d = {} THEN {Pop(q, t)} ELSE {Put(q, t, <<I("tkill", k, 0, KILLED, 0), I("rkill", 0, d \ {k}, x, 0)>>) : k \in d}
    [] f = "runref" -> IF d = {} THEN {Pop(q, t)} ELSE {Put(q, t, <<I("unref", k, 0, 0, 0), I("runref", 0, d \ {k}, x, 0)>>) : k \in d}
    [] f = "rend" -> {Pop([q EXCEPT !.rst[x] = 0], t)}
    [] OTHER -> {}
Seen == {"in", "wk", "body", "del", "ret"}
Internal == \E t \in Thr : s.th[t] # <<>> /\ Top(s, t)[1] \notin Seen /\ s' \in Go(s, t)

(* calls *)
Ret == I("ret", 0, 0, 0, 0)
Items(t, c) == LET o == c[1] a == c[3] IN
  CASE o = "start" -> <<I("start", a[1], 0, 0, 1)>>
    [] o = "kill" -> <<I("kill", a[1], 0, a[2], 1)>>
    [] o = "drop" -> <<I("unref", a[1], 0, 0, 0)>>   \* a[2]: whose future
    [] o = "set" -> <<>>                              \* this body will wait once
    [] o = "madd" -> <<I("mf", 0, 0, a[1], 0), I("madd1", a[2], 0, 0, 0), I("madd2", a[2], a[3], a[1], 0), I("madd3", a[2], 0, a[1], 0)>>
    [] o = "mset" -> <<I("mf", 0, 0, a[1], 0), I("mset", a[2], a[3], a[1], 0)>>
    [] o = "mrem" -> <<I("mf", 0, 0, a[1], 0), I("mrem", a[2], 0, a[1], 0)>>
    [] o = "mstart" -> <<I("mf", 0, 0, a[1], 0), I("mgo", a[2], 0, a[1], 0)>>
    [] o = "mkill" -> <<I("mf", 0, 0, a[1], 0), I("mkill", a[2], 0, a[3], a[1])>>
    [] o = "mtick" -> <<I("tick", 0, a[2], a[1], 0)>>
    [] o = "mreset" -> <<I("reset", 0, 0, a[1], 0)>>
Needs(t, c) == LET o == c[1] a == c[3] IN
  CASE o \in {"start", "kill"} -> {a[1]}
    [] o = "madd" -> {a[2]}
    [] OTHER -> {}
Call(c) == LET t == c[2] a == c[3] IN
  /\ IF s.th[t] = <<>> THEN TRUE ELSE Top(s, t)[1] = "body"
  /\ Needs(t, c) \subseteq s.own[t]
  /\ (c[1] = "drop" => a[1] \in s.own[a[2]])
  /\ s' = [s EXCEPT !.th[t] = Items(t, c) \o <<Ret>> \o @,
                    !.own = IF c[1] = "drop" THEN [@ EXCEPT ![a[2]] = @ \ {a[1]}] ELSE @,
                    !.w = IF c[1] = "set" THEN [@ EXCEPT ![a[1]] = 1] ELSE @]
Is(e, f) == IF s.th[e.t] = <<>> THEN FALSE ELSE Top(s, e.t)[1] = f /\ Top(s, e.t)[2] = e.i
BodyNow(i) == I("body", i, 0, 0, 0)
Obs(e) ==
  CASE e.op = "in" -> Is(e, "in") /\ s.ent[e.i] = 0 /\ s' = Put([s EXCEPT !.ent[e.i] = 1], e.t, <<BodyNow(e.i)>>)
    [] e.op = "wt" -> \* the body is about to wait; it does not wait when it has been ended
         /\ Is(e, "body") /\ s.w[e.i] = 1
         /\ s' = LET q == [s EXCEPT !.w[e.i] = 0] IN IF Ended(s, e.i) THEN Put(q, e.t, <<I("wk", e.i, 0, 0, 0)>>) ELSE Pop([q EXCEPT !.wt[e.i] = 1], e.t)
    [] e.op = "wk" -> Is(e, "wk") /\ s' = Put([s EXCEPT !.wt[e.i] = 0], e.t, <<BodyNow(e.i)>>)
    [] e.op = "be" -> Is(e, "body") /\ s.w[e.i] = 0 /\ s' = Put(s, e.t, <<I("dn1", e.i, 0, 0, 0)>>)
    [] e.op = "del" -> Is(e, "del") /\ s' = Pop([s EXCEPT !.gone = @ \cup {e.i}], e.t)
    [] e.op = "ret" -> IF s.th[e.t] = <<>> THEN FALSE ELSE Top(s, e.t)[1] = "ret" /\ Top(s, e.t)[3] = e.rc /\ s' = Pop(s, e.t)
    [] e.op = "end" -> /\ \A t \in Thr : s.th[t] = <<>>
                       /\ e.st = [i \in Ids |-> IF i \in s.gone THEN -1 ELSE s.st[i]]
                       /\ \A m \in Ms : {e.m[m][k] : k \in DOMAIN e.m[m]} = s.mem[m]
                       /\ \A m \in Ms : {e.tm[m][k] : k \in DOMAIN e.tm[m]} = {<<0, s.last[m]>>} \cup {<<i, s.ex[i]>> : i \in {k \in s.mem[m] : s.ex[k] # 0}}
                       /\ UNCHANGED s
    [] e.op = "gone" -> (\A t \in Thr : s.th[t] = <<>>) /\ s.gone = Ids /\ e.n = 0 /\ UNCHANGED s
    [] OTHER -> FALSE
-----------------------------------------------------------------------------
(* programs *)
F(f) == f \in Features
HasN(h, P(_)) == Cardinality({k \in DOMAIN h : P(h[k])})
TaskOps == (IF F("start") THEN {<<"start", i>> : i \in Ids} ELSE {})
  \cup (IF F("kill") THEN {<<"kill", i, x>> : i \in Ids, x \in {KILLED, CANCEL}} ELSE {})
MgrOps ==
  (IF F("madd") THEN {<<"madd", m, i, d>> : m \in Ms, i \in Ids, d \in (IF F("mtick") THEN {0, 3} ELSE {0})} ELSE {})
  \cup (IF F("mset") THEN {<<"mset", m, i, d>> : m \in Ms, i \in Ids, d \in {0, 2}} ELSE {})
  \cup (IF F("mrem") THEN {<<"mrem", m, i>> : m \in Ms, i \in Ids} ELSE {})
  \cup (IF F("mstart") THEN {<<"mstart", m, i>> : m \in Ms, i \in Ids} ELSE {})
  \cup (IF F("mkill") THEN {<<"mkill", m, i, x>> : m \in Ms, i \in Ids, x \in {KILLED, CANCEL}} ELSE {})
  \cup (IF F("mreset") THEN {<<"mreset", m>> : m \in Ms} ELSE {})
BNames == {"b_" \o n : n \in {"start", "kill", "madd", "mrem", "mset", "mstart", "mkill", "mreset"}}
Menu(t, h) ==
    IF t = 0 THEN
      (IF F("wait") THEN {<<"set", i>> : i \in {k \in Ids : \A e \in DOMAIN h : h[e][1] = "set" => h[e][2] < k}} ELSE {})
      \cup (IF F("bop") /\ HasN(h, LAMBDA c : c[1] \in BNames) = 0 THEN {<<"b_" \o c[1], i>> \o Tail(c) : i \in Ids, c \in TaskOps \cup MgrOps} ELSE {})
      \cup (IF F("pre") THEN TaskOps \cup MgrOps ELSE {})
      \cup (IF F("mtick") THEN {<<"mtick", m, 1>> : m \in Ms} ELSE {})
    ELSE TaskOps \cup MgrOps \cup (IF F("drop") THEN {<<"drop", i>> : i \in Ids} ELSE {})
         \cup (IF F("mtick") THEN {<<"mtick", m, k>> : m \in Ms, k \in 3..7} ELSE {})
-----------------------------------------------------------------------------
(* design *)
Arg(c) == Tail(c)
Calm == \A t \in Thr : s.th[t] = <<>>
DesignCalls(t) == {<<c[1], t, Arg(c)>> : c \in TaskOps \cup MgrOps} \cup (IF F("drop") THEN {<<"drop", t, <<i, t>>>> : i \in Ids} ELSE {})
                  \cup (IF F("mtick") THEN {<<"mtick", t, <<m, s.last[m] + 2>>>> : m \in {k \in Ms : s.last[k] < 5}} ELSE {})
\* threads do not start what would wait
Safe(c) == c[1] \in {"start", "mstart"} => (IF c[1] = "start" THEN s.w[c[3][1]] = 0 ELSE s.w[c[3][2]] = 0)
Next == \/ Internal
        \/ (s.own[0] = Ids /\ Calm /\ F("wait")) /\ (\E i \in Ids : s.w[i] = 0 /\ s.ent[i] = 0 /\ Call(<<"set", 0, <<i>>>>))
        \/ (s.own[0] = Ids /\ Calm /\ F("wait")) /\ (\E i \in Ids : s.w[i] = 1 /\ Call(<<"start", 0, <<i>>>>))
        \/ Calm /\ (\E i \in s.own[0] : Call(<<"drop", 0, <<i, 0>>>>))
        \/ (\E t \in Thr \ {0} : s.th[t] = <<>> /\ s.own[0] = {} /\ \E c \in DesignCalls(t) : Safe(c) /\ Call(c))
        \/ (\E t \in Thr : s.th[t] # <<>> /\ LET p == Top(s, t) e == [t |-> t, i |-> p[2], rc |-> p[3]] IN
               CASE p[1] \in {"in", "wk", "del", "ret"} -> Obs([op |-> p[1]] @@ e)
                 [] p[1] = "body" -> Obs([op |-> "be"] @@ e) \/ Obs([op |-> "wt"] @@ e)
                 [] OTHER -> FALSE)
Doing(f, i) == {<<t, k>> \in Thr \X (1..12) : k <= Len(s.th[t]) /\ s.th[t][k][1] = f /\ s.th[t][k][2] = i}
\* P04
OneRunner == \A i \in Ids : Cardinality(Doing("in", i)) + Cardinality(Doing("body", i)) + Cardinality(Doing("wk", i)) <= 1
EnterOnce == \A i \in Ids : s.ent[i] = 1 => Doing("in", i) = {}
NotGoneInUse == \A i \in s.gone : s.bf[i] = 1 /\ s.sr[i] = 0 /\ s.rf[i] = 0 /\ \A t \in Thr : i \notin s.own[t]
GoneWhenUnused == Calm => \A i \in Ids : s.rf[i] = 0 => i \in s.gone
LockFree == Calm => \A i \in Ids : s.lk[i] = 0
\* M04
MembersAlive == Calm => \A m \in Ms : \A i \in s.mem[m] : s.bd[i] = m /\ s.bf[i] = 0 /\ i \notin s.gone
CalmOnce == Calm => \A m1, m2 \in Ms : m1 # m2 => s.mem[m1] \cap s.mem[m2] = {}
NoTimerLeft == Calm => \A i \in Ids : s.ex[i] # 0 => \E m \in Ms : i \in s.mem[m]
====
