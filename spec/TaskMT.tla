---- MODULE TaskMT ----
(* Stackful tasks and their managers used by several threads (T07, T08, M04).
   Every thread has a list of steps still to do: silent ones (what a call does to the shared state, each of them atomic) and ones
   that user code sees: a task body is entered, yields or ends, a completion callback runs, a task is destroyed, a call returns.
   The order in which the silent steps of different threads interleave is free. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS T, N, NM,   \* threads, tasks, managers
          MaxY,       \* most suspensions of one body
          Features
Thr == 0..T
Ids == 1..N
Ms == 1..NM
VARIABLE s
vars == s
OK == 0  IN_RESET == -104  IS_RUNNING == -1006  FINISHED == -1007  NOT_FOUND == -1008  EXIST == -1009  EXITING == -3002  OTHER_MGR == -3005
CREATED == 1  RUNNING == 2  WAITING == 3  DONE == 4  CANCELED == 5  KILLED == 6  TIMEOUT == 7
Z == [i \in Ids |-> 0]
Init == s = [st |-> [i \in Ids |-> CREATED], left |-> Z, bf |-> Z, nxt |-> [i \in Ids |-> <<>>], tk |-> Z, kd |-> Z, fins |-> Z, acts |-> Z,
             rf |-> [i \in Ids |-> T + 1], own |-> [t \in Thr |-> Ids], gone |-> {},
             th |-> [t \in Thr |-> <<>>],
             mem |-> [m \in Ms |-> {}], bd |-> Z, ex |-> Z, last |-> [m \in Ms |-> 0], rst |-> [m \in Ms |-> 0], tik |-> [m \in Ms |-> 0]]
I(f, i, d, x, b) == <<f, i, d, x, b>>
Top(q, t) == Head(q.th[t])
\* replace the first step by these
Put(q, t, l) == [q EXCEPT !.th[t] = l \o Tail(@)]
Pop(q, t) == Put(q, t, <<>>)
\* the result of the call in progress
Rc(q, t, v) == LET fr == q.th[t] k == CHOOSE k \in 1..Len(fr) : fr[k][1] = "ret" /\ \A j \in 1..(k - 1) : fr[j][1] # "ret"
               IN [q EXCEPT !.th[t][k] = I("ret", 0, v, 0, 0)]
RcIf(q, t, b, v) == IF b = 1 THEN Rc(q, t, v) ELSE q
\* the call ends here
Stop(q, t, v) == LET fr == q.th[t] k == CHOOSE k \in 1..Len(fr) : fr[k][1] = "ret" /\ \A j \in 1..(k - 1) : fr[j][1] # "ret"
                 IN [q EXCEPT !.th[t] = <<I("ret", 0, v, 0, 0)>> \o SubSeq(fr, k + 1, Len(fr))]
Ended(q, i) == q.st[i] >= DONE
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

Kill(q, t, i, d, x, b) ==
  IF Ended(q, i) THEN Pop(RcIf(q, t, b, FINISHED), t)
  ELSE IF q.st[i] = RUNNING THEN Pop(RcIf([q EXCEPT !.st[i] = x, !.kd[i] = d], t, b, OK), t)
  ELSE Put(RcIf([q EXCEPT !.st[i] = x], t, b, OK), t, <<I("force", i, d, 0, 0)>>)
Leave(q, i, m) == [q EXCEPT !.mem[m] = @ \ {i}, !.ex[i] = 0]
Go(q, t) ==
  LET p == Top(q, t) f == p[1] i == p[2] d == p[3] x == p[4] b == p[5] IN
  CASE f = "try" -> \* start or resume
         {IF q.st[i] \in {CREATED, WAITING}
          THEN Put(RcIf([q EXCEPT !.st[i] = RUNNING, !.acts[i] = @ + 1], t, b, OK), t, <<I("in", i, d, 0, 0), I("after", i, 0, 0, 0)>>)
          ELSE Pop(RcIf(q, t, b, IF q.st[i] = RUNNING THEN IS_RUNNING ELSE FINISHED), t)}
    [] f = "after" -> \* the body gave control back
         {IF q.bf[i] = 1 THEN Put([q EXCEPT !.st[i] = IF @ = RUNNING THEN DONE ELSE @], t, <<I("fin", i, 0, 0, 0), I("take", i, 0, 0, 0)>>)
          ELSE IF q.st[i] = RUNNING THEN Pop([q EXCEPT !.st[i] = WAITING], t)
          ELSE Put(q, t, <<I("force", i, q.kd[i], 0, 0)>>)}
    [] f = "force" -> \* run a task that was ended to the end of its body
         {IF q.bf[i] = 1 THEN Put(q, t, <<I("fin", i, 0, 0, 0), I("take", i, 0, 0, 0)>>)
          ELSE Put(q, t, <<I("in", i, d, 0, 0), p>>)}
    [] f = "take" -> \* run the followers
         LET l == q.nxt[i] IN
         {Put([q EXCEPT !.nxt[i] = <<>>, !.tk[i] = 1], t,
              [k \in 1..Len(l) |-> I("try", l[k][1], l[k][2], 0, 0)] \o <<I("unb", i, 0, 0, 0)>> \o [k \in 1..Len(l) |-> I("unref", l[k][1], 0, 0, 0)])}
    [] f = "unb" -> {IF q.bd[i] # 0 THEN Put([q EXCEPT !.bd[i] = 0], t, <<I("mdel", i, 0, q.bd[i], 0)>>) ELSE Pop(q, t)}
    [] f = "unref" -> LET r == [q EXCEPT !.rf[i] = @ - 1] IN {IF r.rf[i] = 0 THEN Put(r, t, <<I("die", i, 0, 0, 0)>>) ELSE Pop(r, t)}
    [] f = "die" ->
         {IF q.st[i] \in {RUNNING, WAITING} THEN Put([q EXCEPT !.st[i] = TIMEOUT], t, <<I("force", i, 0, 0, 0), I("del", i, 0, 0, 0)>>)
          ELSE IF q.st[i] = CREATED THEN Put(q, t, <<I("take", i, 0, 0, 0), I("del", i, 0, 0, 0)>>)
          ELSE Put(q, t, <<I("del", i, 0, 0, 0)>>)}
    [] f = "next" -> \* x follows i
         \* it is left to the ending task as long as that has not taken its followers; it is run here if the task is ending
         (IF q.tk[i] = 0 THEN {Pop([q EXCEPT !.nxt[i] = Append(@, <<x, d>>), !.rf[x] = @ + 1], t)} ELSE {})
         \cup (IF Ended(q, i) \/ q.bf[i] = 1 THEN {Put(q, t, <<I("try", x, d, 0, 0)>>)} ELSE {})
    [] f = "cancel" ->
         {IF Ended(q, i) THEN Pop(RcIf(q, t, b, FINISHED), t)
          ELSE IF q.st[i] = RUNNING THEN Pop(RcIf(q, t, b, IS_RUNNING), t)
          ELSE Put(RcIf([q EXCEPT !.st[i] = CANCELED], t, b, OK), t, <<I("force", i, d, 0, 0)>>)}
    [] f = "kill" -> {Kill(q, t, i, d, x, b)}
    [] f = "status" -> {Pop(Rc(q, t, q.st[i]), t)}
    \* managers
    [] f = "mf" -> {IF q.rst[x] = 1 THEN Stop(q, t, IN_RESET) ELSE Pop(q, t)}
    [] f = "madd1" -> {IF Ended(q, i) THEN Stop(q, t, EXITING) ELSE Pop(q, t)}
    [] f = "madd2" ->
         {IF i \in q.mem[x] THEN Stop(q, t, EXIST)
          ELSE IF q.bd[i] # 0 THEN Stop(q, t, OTHER_MGR)
          ELSE Pop(Rc([q EXCEPT !.mem[x] = @ \cup {i}, !.bd[i] = x, !.ex[i] = IF d = 0 THEN 0 ELSE q.last[x] + d, !.rf[i] = @ + 1], t, OK), t)}
    [] f = "madd3" -> \* the task may have ended before it was in
         {IF Ended(q, i) THEN Put(Rc(q, t, EXITING), t, <<I("mdel", i, 0, x, 0)>>) ELSE Pop(q, t)}
    [] f = "mdel" -> \* forget an ended task
         {IF i \in q.mem[x]
          THEN Put(Leave(q, i, x), t, <<I("uncl", i, 0, x, 0), I("killif", i, 0, KILLED, 0), I("unref", i, 0, 0, 0)>>) ELSE Pop(q, t)}
    [] f = "mset" ->
         {IF i \in q.mem[x] THEN Pop(Rc([q EXCEPT !.ex[i] = IF d = 0 THEN 0 ELSE q.last[x] + d], t, OK), t) ELSE Stop(q, t, NOT_FOUND)}
    [] f = "mrem" ->
         {IF i \in q.mem[x] THEN Put(Rc(Leave(q, i, x), t, OK), t, <<I("uncl", i, 0, x, 0), I("killif", i, 0, KILLED, 1), I("unref", i, 0, 0, 0)>>)
          ELSE Stop(q, t, NOT_FOUND)}
    [] f = "uncl" -> {Pop([q EXCEPT !.bd[i] = IF @ = x THEN 0 ELSE @], t)}
    [] f = "killif" -> {IF q.st[i] \in {RUNNING, WAITING} THEN Put(q, t, <<I("kill", i, d, x, b)>>) ELSE Pop(q, t)}
    [] f = "mgo" ->
         {IF i \in q.mem[x] THEN Put([q EXCEPT !.rf[i] = @ + 1], t, <<I("try", i, d, 0, 1), I("mfin", i, 0, x, 0), I("unref", i, 0, 0, 0)>>)
          ELSE Stop(q, t, NOT_FOUND)}
    [] f = "mfin" -> {IF Ended(q, i) THEN Put(q, t, <<I("mdel", i, 0, x, 0)>>) ELSE Pop(q, t)}
    [] f = "mcancel" ->
         {IF i \notin q.mem[x] THEN Stop(q, t, NOT_FOUND)
          ELSE Put([q EXCEPT !.rf[i] = @ + 1], t, <<I("cancel", i, d, 0, 1), I("mfin", i, 0, x, 0), I("unref", i, 0, 0, 0)>>)}
    [] f = "mkill" -> \* b: the manager
         {IF i \notin q.mem[b] THEN Stop(q, t, NOT_FOUND)
          ELSE Put(Leave(q, i, b), t, <<I("uncl", i, 0, b, 0), I("kill", i, d, x, 1), I("unref", i, 0, 0, 0)>>)}
    [] f = "tick" -> \* d: the time
         {IF q.tik[x] = 1 THEN Pop(q, t) ELSE Put([q EXCEPT !.tik[x] = 1], t, <<I("tick2", 0, d, x, 0)>>)}
    [] f = "tick2" ->
         {IF d <= q.last[x] THEN Put(q, t, <<I("tickx", 0, d, x, 0)>>)
          ELSE IF q.rst[x] = 1 THEN Put(Rc(q, t, IN_RESET), t, <<I("tickx", 0, d, x, 0)>>)
          ELSE IF q.last[x] = 0 THEN Put([q EXCEPT !.last[x] = d, !.ex = [k \in Ids |-> IF k \in q.mem[x] /\ q.ex[k] # 0 THEN q.ex[k] + d ELSE q.ex[k]]], t, <<I("tickx", 0, d, x, 0)>>)
          ELSE Put(q, t, <<I("tickl", 0, d, x, 0)>>)}
    [] f = "tickl" ->
         LET due == {k \in q.mem[x] : q.ex[k] # 0 /\ q.ex[k] < d}
             e == Min({q.ex[k] : k \in due})
             k0 == Min({k \in due : q.ex[k] = e})
         IN {IF due = {} THEN Put([q EXCEPT !.last[x] = d], t, <<I("tickx", 0, d, x, 0)>>)
             ELSE Put(Leave(q, k0, x), t, <<I("uncl", k0, 0, x, 0), I("tkill", k0, 0, TIMEOUT, 0), I("unref", k0, 0, 0, 0), p>>)}
    [] f = "tickx" -> {Pop([q EXCEPT !.tik[x] = 0], t)}
    [] f = "tkill" -> {IF Ended(q, i) THEN Pop(q, t) ELSE Put(q, t, <<I("kill", i, d, x, 0)>>)}
    [] f = "reset" ->
         {IF q.rst[x] = 1 THEN Pop(q, t)
          ELSE Put([q EXCEPT !.rst[x] = 1], t, <<I("reset2", 0, 0, x, 0)>>)}
    [] f = "reset2" ->
         {Put([q EXCEPT !.mem[x] = {}, !.last[x] = 0, !.ex = [k \in Ids |-> IF k \in q.mem[x] THEN 0 ELSE q.ex[k]]], t,
              <<I("runb", 0, q.mem[x], x, 0), I("rkill", 0, q.mem[x], x, 0), I("rend", 0, 0, x, 0), I("runref", 0, q.mem[x], x, 0)>>)}
    [] f = "runb" -> IF d = {} THEN {Pop(q, t)} ELSE {Put(q, t, <<I("uncl", k, 0, x, 0), I("runb", 0, d \ {k}, x, 0)>>) : k \in d}
    [] f = "rkill" -> IF d = {} THEN {Pop(q, t)} ELSE {Put(q, t, <<I("tkill", k, 0, KILLED, 0), I("rkill", 0, d \ {k}, x, 0)>>) : k \in d}
    [] f = "runref" -> IF d = {} THEN {Pop(q, t)} ELSE {Put(q, t, <<I("unref", k, 0, 0, 0), I("runref", 0, d \ {k}, x, 0)>>) : k \in d}
    [] f = "rend" -> {Pop([q EXCEPT !.rst[x] = 0], t)}
    [] OTHER -> {}
Seen == {"in", "body", "fin", "del", "ret"}
Internal == \E t \in Thr : s.th[t] # <<>> /\ Top(s, t)[1] \notin Seen /\ s' \in Go(s, t)

(* calls *)
Ret == I("ret", 0, 0, 0, 0)
Items(t, c) == LET o == c[1] a == c[3] IN
  CASE o \in {"start", "resume"} -> <<I("try", a[1], a[2], 0, 1)>>
    [] o = "cancel" -> <<I("cancel", a[1], a[2], 0, 1)>>
    [] o = "kill" -> <<I("kill", a[1], a[2], a[3], 1)>>
    [] o = "next" -> <<I("next", a[1], a[2], a[3], 0)>>
    [] o = "status" -> <<I("status", a[1], 0, 0, 0)>>
    [] o = "drop" -> <<I("unref", a[1], 0, 0, 0)>>   \* a[2]: whose handle
    [] o = "set" -> <<>>                              \* a[2]: how often the body will yield
    [] o = "madd" -> <<I("mf", 0, 0, a[1], 0), I("madd1", a[2], 0, 0, 0), I("madd2", a[2], a[3], a[1], 0), I("madd3", a[2], 0, a[1], 0)>>
    [] o = "mset" -> <<I("mf", 0, 0, a[1], 0), I("mset", a[2], a[3], a[1], 0)>>
    [] o = "mrem" -> <<I("mf", 0, 0, a[1], 0), I("mrem", a[2], 0, a[1], 0)>>
    [] o \in {"mstart", "mresume"} -> <<I("mf", 0, 0, a[1], 0), I("mgo", a[2], a[3], a[1], 0)>>
    [] o = "mcancel" -> <<I("mf", 0, 0, a[1], 0), I("mcancel", a[2], a[3], a[1], 0)>>
    [] o = "mkill" -> <<I("mf", 0, 0, a[1], 0), I("mkill", a[2], a[3], a[4], a[1])>>
    [] o = "mtick" -> <<I("tick", 0, a[2], a[1], 0)>>
    [] o = "mreset" -> <<I("reset", 0, 0, a[1], 0)>>
Needs(t, c) == LET o == c[1] a == c[3] IN
  CASE o \in {"start", "resume", "cancel", "kill", "status"} -> {a[1]}
    [] o = "next" -> {a[1], a[3]}
    [] o = "madd" -> {a[2]}
    [] OTHER -> {}
Call(c) == LET t == c[2] a == c[3] IN
  /\ IF s.th[t] = <<>> THEN TRUE ELSE Top(s, t)[1] = "body"
  /\ Needs(t, c) \subseteq s.own[t]
  /\ (c[1] = "drop" => a[1] \in s.own[a[2]])
  /\ s' = [s EXCEPT !.th[t] = Items(t, c) \o <<Ret>> \o @,
                    !.own = IF c[1] = "drop" THEN [@ EXCEPT ![a[2]] = @ \ {a[1]}] ELSE @,
                    !.left = IF c[1] = "set" THEN [@ EXCEPT ![a[1]] = a[2]] ELSE @]
Is(e, f) == IF s.th[e.t] = <<>> THEN FALSE ELSE Top(s, e.t)[1] = f
Obs(e) ==
  CASE e.op = "in" -> /\ Is(e, "in") /\ Top(s, e.t)[2] = e.i /\ Top(s, e.t)[3] = e.d
                      /\ s' = Put(s, e.t, <<I("body", e.i, 0, 0, 0)>>)
    [] e.op = "yd" -> Is(e, "body") /\ Top(s, e.t)[2] = e.i /\ s.left[e.i] > 0 /\ s' = Pop([s EXCEPT !.left[e.i] = @ - 1], e.t)
    [] e.op = "be" -> Is(e, "body") /\ Top(s, e.t)[2] = e.i /\ s.left[e.i] = 0 /\ s' = Pop([s EXCEPT !.bf[e.i] = 1], e.t)
    [] e.op = "fin" -> Is(e, "fin") /\ Top(s, e.t)[2] = e.i /\ s' = Pop([s EXCEPT !.fins[e.i] = @ + 1], e.t)
    [] e.op = "del" -> Is(e, "del") /\ Top(s, e.t)[2] = e.i /\ s' = Pop([s EXCEPT !.gone = @ \cup {e.i}], e.t)
    [] e.op = "ret" -> Is(e, "ret") /\ Top(s, e.t)[3] = e.rc /\ s' = Pop(s, e.t)
    [] e.op = "end" -> /\ \A t \in Thr : s.th[t] = <<>>
                       /\ e.st = [i \in Ids |-> IF i \in s.gone THEN -1 ELSE s.st[i]]
                       /\ \A m \in Ms : {e.m[m][k] : k \in DOMAIN e.m[m]} = s.mem[m]
                       /\ \A m \in Ms : {e.tm[m][k] : k \in DOMAIN e.tm[m]} = {<<0, s.last[m]>>} \cup {<<i, s.ex[i]>> : i \in {k \in s.mem[m] : s.ex[k] # 0}}
                       /\ UNCHANGED s
    [] e.op = "gone" -> (\A t \in Thr : s.th[t] = <<>>) /\ s.gone = Ids /\ e.n = 0 /\ UNCHANGED s
    [] OTHER -> FALSE
-----------------------------------------------------------------------------
(* programs *)
F(f) == f \in Features
HasN(h, P(_)) == Cardinality({k \in DOMAIN h : P(h[k])})
TaskOps(t) ==
  (IF F("start") THEN {<<"start", i, 10 * t + 1>> : i \in Ids} ELSE {})
  \cup (IF F("resume") THEN {<<"resume", i, 10 * t + 2>> : i \in Ids} ELSE {})
  \cup (IF F("cancel") THEN {<<"cancel", i, 10 * t + 3>> : i \in Ids} ELSE {})
  \cup (IF F("kill") THEN {<<"kill", i, 10 * t + 4, KILLED>> : i \in Ids} ELSE {})
  \cup (IF F("killdone") THEN {<<"kill", i, 10 * t + 5, x>> : i \in Ids, x \in {DONE, TIMEOUT}} ELSE {})
  \cup (IF F("next") THEN {<<"next", i, 10 * t + 6, j>> : i \in Ids, j \in Ids} ELSE {})
  \cup (IF F("status") THEN {<<"status", i>> : i \in Ids} ELSE {})
MgrOps(t) ==
  (IF F("madd") THEN {<<"madd", m, i, d>> : m \in Ms, i \in Ids, d \in (IF F("mtick") THEN {0, 3} ELSE {0})} ELSE {})
  \cup (IF F("mset") THEN {<<"mset", m, i, d>> : m \in Ms, i \in Ids, d \in {0, 2}} ELSE {})
  \cup (IF F("mrem") THEN {<<"mrem", m, i>> : m \in Ms, i \in Ids} ELSE {})
  \cup (IF F("mstart") THEN {<<"mstart", m, i, 10 * t + 7>> : m \in Ms, i \in Ids} ELSE {})
  \cup (IF F("mresume") THEN {<<"mresume", m, i, 10 * t + 6>> : m \in Ms, i \in Ids} ELSE {})
  \cup (IF F("mcancel") THEN {<<"mcancel", m, i, 10 * t + 8>> : m \in Ms, i \in Ids} ELSE {})
  \cup (IF F("mkill") THEN {<<"mkill", m, i, 10 * t + 9, KILLED>> : m \in Ms, i \in Ids} ELSE {})
  \cup (IF F("mreset") THEN {<<"mreset", m>> : m \in Ms} ELSE {})
\* followers have larger numbers: no cycles
Fine(c) == (c[1] = "next" => c[2] < c[4]) /\ (c[1] = "b_next" => c[3] < c[5])
BNames == {"b_" \o n : n \in {"start", "resume", "cancel", "kill", "next", "status", "madd", "mrem", "mstart", "mresume", "mcancel", "mkill", "mreset"}}
Menu(t, h) ==
  {c \in
    IF t = 0 THEN
      {<<"set", i, y>> : i \in {k \in Ids : \A e \in DOMAIN h : h[e][1] = "set" => h[e][2] < k}, y \in 1..MaxY}
      \cup (IF F("bop") /\ HasN(h, LAMBDA c : c[1] \in BNames) = 0 THEN {<<"b_" \o c[1], i>> \o Tail(c) : i \in Ids, c \in TaskOps(5) \cup MgrOps(5)} ELSE {})
      \cup (IF F("pre") THEN TaskOps(0) \cup MgrOps(0) ELSE {})
      \cup (IF F("mtick") THEN {<<"mtick", m, 1>> : m \in Ms} ELSE {})
    ELSE TaskOps(t) \cup MgrOps(t) \cup (IF F("drop") THEN {<<"drop", i>> : i \in Ids} ELSE {})
         \cup (IF F("mtick") THEN {<<"mtick", m, k>> : m \in Ms, k \in 3..7} ELSE {})
   : Fine(c)}
-----------------------------------------------------------------------------
(* design *)
Arg(c) == Tail(c)
DesignCalls(t) == {<<c[1], t, Arg(c)>> : c \in TaskOps(t) \cup MgrOps(t)} \cup (IF F("drop") THEN {<<"drop", t, <<i, t>>>> : i \in Ids} ELSE {})
Quiet0 == s.th[0] = <<>>
Next == \/ Internal
        \/ (s.own[0] = Ids /\ \A t \in Thr : s.th[t] = <<>>) /\ (\E i \in Ids, y \in 1..MaxY : s.left[i] = 0 /\ Call(<<"set", 0, <<i, y>>>>))
        \/ (Quiet0 /\ \A t \in Thr : s.th[t] = <<>>) /\ (\E i \in s.own[0] : Call(<<"drop", 0, <<i, 0>>>>))
        \/ (\E t \in Thr \ {0} : s.th[t] = <<>> /\ s.own[0] = {} /\ \E c \in DesignCalls(t) : (c[1] = "next" => c[3][1] < c[3][3]) /\
               (c[1] = "next" => Len(s.nxt[c[3][1]]) < 1) /\ Call(c))
        \/ (\E t \in Thr : s.th[t] # <<>> /\ LET p == Top(s, t) e == [t |-> t, i |-> p[2], d |-> p[3], rc |-> p[3]] IN
               CASE p[1] = "in" -> Obs([op |-> "in"] @@ e)
                 [] p[1] = "body" -> Obs([op |-> "be"] @@ e) \/ Obs([op |-> "yd"] @@ e)
                 [] p[1] = "fin" -> Obs([op |-> "fin"] @@ e)
                 [] p[1] = "del" -> Obs([op |-> "del"] @@ e)
                 [] p[1] = "ret" -> Obs([op |-> "ret"] @@ e)
                 [] OTHER -> FALSE)
DInit == Init
Doing(f, i) == {<<t, k>> \in Thr \X (1..12) : k <= Len(s.th[t]) /\ s.th[t][k][1] = f /\ s.th[t][k][2] = i}
\* T07
OneRunner == \A i \in Ids : Cardinality(Doing("in", i)) + Cardinality(Doing("body", i)) <= 1
FinOnce == \A i \in Ids : s.fins[i] <= 1
EndedOnce == \A i \in Ids : Cardinality(Doing("fin", i)) + s.fins[i] <= 1
NotGoneInUse == \A i \in s.gone : \A t \in Thr : i \notin s.own[t] /\ s.rf[i] = 0
FinalSticky == [][\A i \in Ids : s.st[i] >= DONE => s'.st[i] = s.st[i]]_s
\* T08: nothing is chained behind a task that has taken its followers
NoLate == \A i \in Ids : s.tk[i] = 1 => s.nxt[i] = <<>>
\* M04
Calm == \A t \in Thr : s.th[t] = <<>>
MembersAlive == Calm => \A m \in Ms : \A i \in s.mem[m] : s.bd[i] = m /\ ~Ended(s, i) /\ i \notin s.gone
BoundOnce == \A m1, m2 \in Ms : m1 # m2 => \A i \in s.mem[m1] \cap s.mem[m2] : Ended(s, i)
CalmOnce == Calm => \A m1, m2 \in Ms : m1 # m2 => s.mem[m1] \cap s.mem[m2] = {}
NoTimerLeft == Calm => \A i \in Ids : s.ex[i] # 0 => \E m \in Ms : i \in s.mem[m]
====
