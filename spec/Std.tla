---- MODULE Std ----
(* C++20 coroutines: callables, tasks, generators, then() continuations, some/any/all and the manager of tasks (P01-P07, M01-M03).
   s.stk is the control stack.  User frames (main program, coroutine bodies, generator callbacks, then() functors) issue
   commands; library frames advance silently until user code gets control again, which is observed together with everything
   a user can see.  A suspended coroutine keeps only its suspension point s.sp[i] = <<what it waits for, which one>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, NG, NM, Vals, Mode, Timeouts, Ticks, Features, MaxDepth
Ft(x) == x \in Features
Ids == 1..N
AIds == IF Ft("some") THEN 1..(2 * N) ELSE Ids
Gs == 1..NG
Ms == 1..NM
VARIABLE s
vars == s

CREATED == 1  RUNNING == 2  DONE == 3  CANCEL == 4  KILLED == 5  TIMEOUT == 6
IN_RESET == -104  NOT_FOUND == -1008  EXIST == -1009  EXITING == -3002  OTHER_MGR == -3005
FREE == 0  CALL == 1  TASK == 2
(* value types: 0 int, 1 a class that marks moved-from objects, 2 void, 3 int with error values of the user's own *)
MOVED == -99
Err(st) == IF Mode = 2 THEN 0 ELSE IF Mode = 3 THEN -100 - st ELSE IF st <= CREATED THEN -1 ELSE -st

NoObs == [op |-> "none", rc |-> 0, x |-> 0]
Obs(op, rc, x) == [op |-> op, rc |-> rc, x |-> x]
F(f, t) == [f |-> f, t |-> t, k |-> "", j |-> 0, c |-> FALSE, R |-> {}, ph |-> "", rc |-> 0, l |-> <<>>]
UserKinds == {"main", "body", "scb", "rcb", "fn"}
No == <<"no", 0>>

Mgr0 == [a |-> FALSE, mem |-> {}, dl |-> [i \in Ids |-> <<>>], last |-> <<0, 0>>, rs |-> FALSE, tk |-> FALSE]
Init == s = [mg |-> [m \in Ms |-> Mgr0], ex |-> [i \in AIds |-> FREE], st |-> [i \in AIds |-> 0], ret |-> [i \in AIds |-> FALSE], ent |-> [i \in AIds |-> FALSE],
             dat |-> [i \in AIds |-> 0], tkn |-> [i \in AIds |-> FALSE],
             iw |-> [i \in AIds |-> FALSE], wt |-> [i \in AIds |-> 0], cl |-> [i \in AIds |-> {}], sp |-> [i \in AIds |-> No],
             vis |-> [i \in Ids |-> FALSE], fut |-> [i \in Ids |-> 0], lk |-> [i \in Ids |-> FALSE], th |-> [i \in Ids |-> 0],
             won |-> [i \in AIds |-> {}],
             gx |-> [g \in Gs |-> FALSE], gs |-> [g \in Gs |-> FALSE], gk |-> [g \in Gs |-> FALSE], grd |-> [g \in Gs |-> FALSE],
             gv |-> [g \in Gs |-> 0], gt |-> [g \in Gs |-> 0], gcl |-> [g \in Gs |-> {}],
             sm |-> [i \in AIds |-> <<>>],
             stk |-> <<F("main", 0)>>, pend |-> NoObs]

-----------------------------------------------------------------------------
TopOf(st) == st.stk[Len(st.stk)]
Top == TopOf(s)
Push(st, fr) == [st EXCEPT !.stk = Append(@, fr)]
Pop(st) == [st EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
SetTop(st, fr) == [st EXCEPT !.stk[Len(st.stk)] = fr]
Say(st, o) == [st EXCEPT !.pend = o]
Ret(st, rc) == Say(st, Obs("ret", rc, 0))
Lowest(S) == {CHOOSE i \in S : \A j \in S : i <= j}
Pick(S) == IF Ft("lenient") THEN S ELSE Lowest(S)
B(b) == IF b THEN 1 ELSE 0
FrameSet(st) == {st.stk[k] : k \in 1..Len(st.stk)}
NFrames(st, P(_)) == Cardinality({k \in 1..Len(st.stk) : P(st.stk[k])})

UserBody(st, i) == i \in Ids /\ st.th[i] = 0
OnStack(st, i) == st.ex[i] # FREE /\ ~st.ret[i] /\ st.sp[i] = No

(* coroutine i gets control *)
Resume(st, i) ==
  LET p == st.sp[i]  s1 == [st EXCEPT !.sp[i] = No] IN
  CASE p[1] = "init" /\ UserBody(st, i) ->
         Say(Push([s1 EXCEPT !.st[i] = IF @ = CREATED THEN RUNNING ELSE @, !.ent[i] = TRUE], F("body", i)), Obs("enter", i, 0))
    [] p[1] = "init" /\ ~UserBody(st, i) ->
         Push([s1 EXCEPT !.st[i] = IF @ = CREATED THEN RUNNING ELSE @, !.ent[i] = TRUE], [F("tb", i) EXCEPT !.ph = "go"])
    [] p[1] = "some" -> Push(s1, [F("some", i) EXCEPT !.ph = "res"])
    [] OTHER -> Push(Push(s1, F(IF UserBody(st, i) THEN "body" ELSE "tb", i)), [F("aw", i) EXCEPT !.k = p[1], !.j = p[2], !.c = TRUE, !.ph = p[3]])

(* caller sets, including callers that a running wake-up has still to resume *)
Reg(st, i, j) == i \in st.cl[j] \/ \E fr \in FrameSet(st) : fr.f = "fin" /\ fr.t = j /\ i \in fr.R
DropFrames(st, kinds, j, i) == [st EXCEPT !.stk = [k \in 1..Len(@) |-> IF @[k].f \in kinds /\ @[k].t = j THEN [@[k] EXCEPT !.R = @ \ {i}] ELSE @[k]]]
Unreg(st, i, j, inherit) ==
  LET s1 == DropFrames([st EXCEPT !.cl[j] = @ \ {i}], {"fin"}, j, i) IN
  IF Reg(st, i, j) /\ inherit /\ st.st[j] < DONE /\ st.st[i] > DONE THEN [s1 EXCEPT !.st[j] = st.st[i]] ELSE s1
GUnreg(st, i, g) == DropFrames([st EXCEPT !.gcl[g] = @ \ {i}], {"wake", "gdel"}, g, i)

Waiting(st, i) == st.wt[i] # 0 \/ st.iw[i]
(* end what j waits for, or let j itself go on *)
ResumeWaiting(st, j) ==
  LET w == st.wt[j] IN
  IF w # 0 /\ ~st.ret[w]
  THEN LET s1 == Unreg([st EXCEPT !.wt[j] = 0], j, w, TRUE) IN IF Waiting(s1, w) THEN Resume(s1, w) ELSE s1
  ELSE IF ~st.ret[j] /\ st.iw[j] THEN Resume(st, j) ELSE st

Aw(i, k, j, c, ph) == [F("aw", i) EXCEPT !.k = k, !.j = j, !.c = c, !.ph = ph]
(* the coroutine whose frame is on top awaits; tmp: the awaited callable lives in the awaiting expression *)
Await(st, i, k, j, tmp) ==
  LET ready == CASE k = "c" -> st.ret[j] \/ st.st[j] >= DONE
                 [] k = "t" -> st.ret[j] \/ st.st[j] >= DONE
                 [] k = "g" -> st.grd[j] IN
  IF ready THEN Push(st, Aw(i, k, j, FALSE, tmp))
  ELSE IF st.st[i] < DONE THEN
    CASE k = "c" -> Pop([st EXCEPT !.wt[i] = j, !.cl[j] = @ \cup {i}, !.iw[i] = TRUE, !.sp[i] = <<k, j, tmp>>])
      [] k = "t" -> Pop([st EXCEPT !.cl[j] = @ \cup {i}, !.iw[i] = TRUE, !.sp[i] = <<k, j, tmp>>])
      [] k = "g" -> LET s1 == Pop([st EXCEPT !.gcl[j] = @ \cup {i}, !.iw[i] = TRUE, !.sp[i] = <<k, j, tmp>>]) IN
                    IF Ft("scb") THEN Say(Push(s1, F("scb", j)), Obs("scb", j, i)) ELSE s1
  ELSE IF k = "c" /\ st.st[j] < DONE /\ st.iw[j]
       THEN Resume(Push([st EXCEPT !.st[j] = st.st[i]], Aw(i, k, j, FALSE, tmp)), j)
  ELSE Push(st, Aw(i, k, j, FALSE, tmp))

(* managers *)
(* times are generated from integers: 10 * seconds + index into a table of nanoseconds *)
Nsec == <<0, 1, 400000000, 500000000, 600000000, 999999999>>
TT(x) == <<x \div 10, Nsec[1 + (x % 10)]>>
TTs(S) == {TT(x) : x \in S}
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Add(a, b) == LET n == a[2] + b[2] IN IF n >= 1000000000 THEN <<a[1] + b[1] + 1, n - 1000000000>> ELSE <<a[1] + b[1], n>>
MemberOf(st, i) == {m \in Ms : i \in st.mg[m].mem}
MRemove(st, m, i) == [st EXCEPT !.mg[m].mem = @ \ {i}, !.mg[m].dl[i] = <<>>]
Unbound(st, i) == IF MemberOf(st, i) = {} THEN st ELSE MRemove(st, CHOOSE m \in MemberOf(st, i) : TRUE, i)
Overdue(st, m, now) == {i \in st.mg[m].mem : st.mg[m].dl[i] # <<>> /\ Lt(st.mg[m].dl[i], now)}
First(st, m, S) == {i \in S : \A j \in S : ~Lt(st.mg[m].dl[j], st.mg[m].dl[i])}

(* frame of coroutine i is on top *)
Finish(st0, i, v) == LET st == IF i \in Ids THEN Unbound(st0, i) ELSE st0 IN
  SetTop([st EXCEPT !.ret[i] = TRUE, !.st[i] = IF @ < DONE THEN DONE ELSE @, !.dat[i] = v, !.cl[i] = {}], [F("fin", i) EXCEPT !.R = st.cl[i]])

Destroy(st, i) == LET s1 == [st EXCEPT !.ex[i] = FREE, !.st[i] = 0, !.ret[i] = FALSE, !.ent[i] = FALSE, !.dat[i] = 0, !.tkn[i] = FALSE,
                        !.iw[i] = FALSE, !.wt[i] = 0, !.cl[i] = {}, !.sp[i] = No, !.won[i] = {},
                        !.stk = [k \in 1..Len(@) |-> IF @[k].f = "fin" /\ @[k].t = i THEN [@[k] EXCEPT !.t = 0] ELSE @[k]]] IN
                  IF i \in Ids THEN [s1 EXCEPT !.vis[i] = FALSE, !.fut[i] = 0, !.lk[i] = FALSE, !.th[i] = 0] ELSE s1

(* references *)
FutRefs(st, i) == st.fut[i] + Cardinality(MemberOf(st, i)) + NFrames(st, LAMBDA fr : (fr.f = "mop" /\ fr.t = i) \/ (fr.f = "mrel" /\ i \in fr.R)) + NFrames(st, LAMBDA fr : fr.f = "kill" /\ fr.t = i) + Cardinality({j \in Ids : st.ex[j] # FREE /\ st.th[j] = i})
Busy(st, i) == \E fr \in FrameSet(st) : fr.t = i /\ fr.f \in {"ff", "fin"}
DeadTasks(st) == {i \in Ids : st.ex[i] = TASK /\ FutRefs(st, i) = 0 /\ ~(\E fr \in FrameSet(st) : fr.t = i /\ fr.f \in {"ff", "fin", "tnew"})}
CtxRefs(st, g) == B(st.gs[g]) + B(st.gk[g]) + NFrames(st, LAMBDA fr : fr.f \in {"scb", "gset"} /\ fr.t = g)
DeadGens(st) == {g \in Gs : st.gx[g] /\ CtxRefs(st, g) = 0 /\ ~(\E fr \in FrameSet(st) : fr.f = "gdel" /\ fr.t = g)}

-----------------------------------------------------------------------------
(* silent steps *)
WakeOne(fr) == {LET s1 == SetTop(s, [fr EXCEPT !.R = @ \ {k}]) IN IF s.ret[k] THEN s1 ELSE Resume(s1, k) : k \in Pick(fr.R)}

StepFin(fr) == IF fr.R # {} THEN WakeOne(fr) ELSE {Pop(s)}

Deliver(st, i, v) ==
  LET s1 == Pop([st EXCEPT !.won[i] = {}]) IN
  IF UserBody(st, i) THEN Say(s1, Obs("cont", i, v)) ELSE Say(Push(s1, F("fn", i)), Obs("fn", i, v))
(* values handed out: who asks after the only copy was moved to somebody else may see a moved-from object *)
Give(v, taken) == IF Mode = 1 /\ taken THEN {v, MOVED} ELSE {v}
RECURSIVE Code(_)
Code(q) == IF q = <<>> THEN 0 ELSE 10 * Code(SubSeq(q, 1, Len(q) - 1)) + q[Len(q)]
StepAw(fr) == LET i == fr.t  j == fr.j IN
  CASE fr.ph \in {"", "tmp"} /\ fr.k = "c" ->
         LET s0 == SetTop(s, [fr EXCEPT !.ph = IF fr.ph = "tmp" THEN "valtmp" ELSE "val"])
             s1 == IF fr.c THEN Unreg([s0 EXCEPT !.iw[i] = FALSE, !.wt[i] = 0], i, j, TRUE) ELSE s0
             s2 == IF s1.st[j] < DONE THEN [s1 EXCEPT !.st[j] = IF fr.c THEN s1.st[i] ELSE KILLED] ELSE s1
         IN {ResumeWaiting(s2, j)}
    [] fr.ph = "" /\ fr.k = "t" ->
         LET s0 == SetTop(s, [fr EXCEPT !.ph = "val", !.rc = IF s.ret[j] THEN DONE ELSE IF fr.c THEN s.st[i] ELSE KILLED])
         IN {IF fr.c THEN Unreg([s0 EXCEPT !.iw[i] = FALSE], i, j, FALSE) ELSE s0}
    [] fr.ph = "" /\ fr.k = "g" ->
         LET s0 == SetTop(s, [fr EXCEPT !.ph = "val", !.rc = IF s.grd[j] THEN DONE ELSE IF fr.c THEN s.st[i] ELSE KILLED])
             s1 == IF fr.c THEN GUnreg([s0 EXCEPT !.iw[i] = FALSE], i, j) ELSE s0
         IN {IF fr.c /\ Ft("rcb") THEN Say(Push(s1, F("rcb", j)), Obs("rcb", j, i)) ELSE s1}
    [] fr.ph \in {"val", "valtmp"} /\ fr.k = "c" ->
         LET vs == IF s.ret[j] THEN Give(s.dat[j], s.tkn[j]) ELSE {IF j > N THEN s.st[j] ELSE Err(s.st[j])}
             s1 == IF s.ret[j] THEN [s EXCEPT !.tkn[j] = TRUE] ELSE s IN
         IF fr.ph = "val" THEN {Deliver(s1, i, v) : v \in vs}
         ELSE {Push(SetTop(s1, [fr EXCEPT !.ph = "out", !.rc = v]), F("drop", j)) : v \in vs}
    [] fr.ph = "val" /\ fr.k = "t" ->
         IF fr.rc = DONE /\ s.ret[j] THEN {Deliver([s EXCEPT !.tkn[j] = TRUE], i, v) : v \in Give(s.dat[j], s.tkn[j] /\ ~fr.c)}
         ELSE {Deliver(s, i, Err(fr.rc))}
    [] fr.ph = "val" /\ fr.k = "g" ->
         IF fr.rc = DONE /\ s.grd[j] THEN {Deliver([s EXCEPT !.gt[j] = IF fr.c /\ @ # 2 /\ NFrames(s, LAMBDA x : x.f = "aw" /\ x.k = "g" /\ x.j = j) = 1 THEN 1 ELSE 2], i, v) : v \in Give(s.gv[j], s.gt[j] = 2 \/ (s.gt[j] = 1 /\ ~fr.c))}
         ELSE {Deliver(s, i, Err(fr.rc))}
    [] fr.ph = "out" -> {IF j > N THEN Deliver([s EXCEPT !.sm[j] = <<>>], i, fr.rc + 100 * Code(s.sm[j].r)) ELSE Deliver(s, i, fr.rc)}

(* some()/any()/all(): the library's coroutine sid = N + (who waits for it).  sm: members pending p, ready r, wanted b, wake-ups counted w *)
MemPending(st, k, j) == IF k = "g" THEN ~st.grd[j] ELSE st.st[j] < DONE
MemUnreg(st, i, k, j) == IF k = "g" THEN GUnreg(st, i, j) ELSE Unreg(st, i, j, FALSE)
Ph(fr, ph) == [fr EXCEPT !.ph = ph]
SomeEnd(st, S, v) == Finish([st EXCEPT !.sm[S].out = TRUE], S, v)
Without(q, j) == SelectSeq(q, LAMBDA x : x # j)
MemRcb(st, k, j) == IF k = "g" /\ Ft("rcb") THEN Say(Push(st, [F("rcb", j) EXCEPT !.k = "s"]), Obs("rcb", j, 0)) ELSE st
StepSome(fr) == LET S == fr.t  m == s.sm[S] IN
  CASE fr.ph = "start" -> {IF Len(m.r) >= m.n THEN SomeEnd(s, S, DONE) ELSE SetTop(s, Ph(fr, "loop"))}
    [] fr.ph = "loop" ->
         IF m.st >= DONE \/ s.st[S] >= DONE
         THEN {SetTop([s EXCEPT !.sm[S].st = IF @ >= DONE THEN @ ELSE s.st[S]], [Ph(fr, "end") EXCEPT !.l = IF m.reg THEN m.p ELSE <<>>])}
         ELSE IF m.p = <<>> THEN {SetTop(s, Ph(fr, "res"))}
         ELSE LET s1 == Pop([s EXCEPT !.iw[S] = TRUE, !.sp[S] = <<"some", 0>>, !.sm[S].reg = TRUE]) IN
              {IF m.reg THEN s1 ELSE Push(s1, [F("ssus", S) EXCEPT !.l = m.p])}
    [] fr.ph = "res" ->
         LET s1 == [s EXCEPT !.iw[S] = FALSE, !.sm[S].w = @ + 1] IN
         {SetTop(s1, IF s1.sm[S].w >= m.b THEN [Ph(fr, "scan") EXCEPT !.l = m.p] ELSE Ph(fr, "loop"))}
    [] fr.ph = "scan" ->
         IF fr.l = <<>>
         THEN {SetTop([s EXCEPT !.sm[S].w = Len(m.r), !.sm[S].st = IF Len(m.r) >= m.b /\ @ < DONE THEN DONE ELSE @], Ph(fr, "loop"))}
         ELSE LET j == Head(fr.l)  s1 == SetTop(s, [fr EXCEPT !.l = Tail(@)]) IN
              {IF MemPending(s, m.k, j) THEN s1
               ELSE MemRcb(MemUnreg([s1 EXCEPT !.sm[S].p = Without(@, j), !.sm[S].r = Append(@, j)], S, m.k, j), m.k, j)}
    [] fr.ph = "end" ->
         IF fr.l = <<>> THEN {SomeEnd(s, S, m.st)}
         ELSE LET j == Head(fr.l)  s1 == SetTop(s, [fr EXCEPT !.l = Tail(@)]) IN {MemRcb(MemUnreg(s1, S, m.k, j), m.k, j)}
StepSsus(fr) == LET S == fr.t IN
  IF fr.l = <<>> THEN {Pop(s)}
  ELSE LET j == Head(fr.l)  m == s.sm[S]
           s1 == SetTop(s, [fr EXCEPT !.l = Tail(@)])
           s2 == IF m.out THEN s1 ELSE IF m.k = "g" THEN [s1 EXCEPT !.gcl[j] = @ \cup {S}] ELSE [s1 EXCEPT !.cl[j] = @ \cup {S}]
       IN {IF m.k = "g" /\ Ft("scb") THEN Say(Push(s2, [F("scb", j) EXCEPT !.k = "s"]), Obs("scb", j, 0)) ELSE s2}
StepDrop(fr) == LET i == fr.t IN
  IF s.ret[i] THEN {Pop(Destroy(s, i))} ELSE {Resume([s EXCEPT !.st[i] = IF @ < DONE THEN KILLED ELSE @], i)}
StepFF(fr) == LET i == fr.t IN
  IF s.ret[i] THEN {Pop(s)}
  ELSE {Resume(SetTop([s EXCEPT !.st[i] = IF fr.ph = "" /\ @ < DONE THEN KILLED ELSE @], [fr EXCEPT !.ph = "on"]), i)}
StepGdel(fr) == LET g == fr.t IN
  IF fr.ph = "" THEN {SetTop([s EXCEPT !.gcl[g] = {}, !.gv[g] = IF s.grd[g] \/ Mode = 2 THEN @ ELSE Err(KILLED),
                                       !.grd[g] = IF Mode = 2 THEN @ ELSE TRUE], [fr EXCEPT !.ph = "wake", !.R = s.gcl[g]])}
  ELSE IF fr.R # {} THEN WakeOne(fr)
  ELSE {Pop([s EXCEPT !.gx[g] = FALSE, !.grd[g] = FALSE, !.gv[g] = 0, !.gt[g] = 0])}

Refused(st, i, t) == t < DONE \/ st.ret[i] \/ st.st[i] >= DONE \/ (i \in Ids /\ st.lk[i])
KillIn(st, i, t, force) ==
  IF Refused(st, i, t) THEN st
  ELSE LET s1 == [st EXCEPT !.st[i] = t]
           s2 == IF st.ex[i] = TASK THEN Push([s1 EXCEPT !.lk[i] = TRUE], F("kill", i)) ELSE s1
       IN IF force = 1 \/ Waiting(st, i) THEN Resume(s2, i) ELSE s2

MOp(i, m) == [F("mop", i) EXCEPT !.j = m]
StepMop(fr) == LET s1 == Pop(s) IN
  {IF fr.ph = "start" /\ s.st[fr.t] >= DONE /\ fr.t \in s.mg[fr.j].mem THEN MRemove(s1, fr.j, fr.t) ELSE s1}
StepMtick(fr) == LET m == fr.t  od == Overdue(s, m, fr.l) IN
  IF od = {} THEN {Pop([s EXCEPT !.mg[m].last = fr.l, !.mg[m].tk = FALSE])}
  ELSE {LET s1 == Push(MRemove(s, m, i), MOp(i, m)) IN IF s.st[i] < DONE THEN KillIn(s1, i, TIMEOUT, 0) ELSE s1
        : i \in IF Ft("lenient") THEN od ELSE Lowest(First(s, m, od))}
StepMrst(fr) == IF fr.R = {} THEN {Pop(s)}
  ELSE {LET s1 == SetTop(s, [fr EXCEPT !.R = @ \ {i}]) IN IF s.st[i] < DONE THEN KillIn(s1, i, KILLED, 0) ELSE s1 : i \in Pick(fr.R)}
StepMrel(fr) == LET m == fr.t IN
  IF fr.R = {} THEN {Pop([s EXCEPT !.mg[m] = IF fr.k = "mdel" THEN Mgr0 ELSE [@ EXCEPT !.rs = FALSE]])}
  ELSE {SetTop(s, [fr EXCEPT !.R = @ \ {i}]) : i \in Pick(fr.R)}

Silent ==
  IF s.pend.op # "none" THEN {}
  ELSE IF DeadGens(s) # {} THEN {Push(s, F("gdel", g)) : g \in Pick(DeadGens(s))}
  ELSE IF DeadTasks(s) # {} THEN {IF s.ret[i] THEN Destroy(s, i) ELSE Push(s, F("ff", i)) : i \in Pick(DeadTasks(s))}
  ELSE LET fr == Top IN
       CASE fr.f = "fin" -> StepFin(fr)
         [] fr.f = "wake" -> IF fr.R # {} THEN WakeOne(fr) ELSE {Pop(s)}
         [] fr.f = "aw" -> StepAw(fr)
         [] fr.f = "some" -> StepSome(fr)
         [] fr.f = "ssus" -> StepSsus(fr)
         [] fr.f = "drop" -> StepDrop(fr)
         [] fr.f = "ff" -> StepFF(fr)
         [] fr.f = "gdel" -> StepGdel(fr)
         [] fr.f = "gset" -> {Pop(s)}
         [] fr.f = "mop" -> StepMop(fr)
         [] fr.f = "mtick" -> StepMtick(fr)
         [] fr.f = "mrst" -> StepMrst(fr)
         [] fr.f = "mrel" -> StepMrel(fr)
         [] fr.f = "kill" -> {Pop([s EXCEPT !.lk[fr.t] = FALSE])}
         [] fr.f = "tb" /\ fr.ph = "go" -> {Await(SetTop([s EXCEPT !.won[fr.t] = {<<"t", s.th[fr.t]>>}], [fr EXCEPT !.ph = ""]), fr.t, "t", s.th[fr.t], "")}
         [] fr.f = "new" -> {Ret(Pop([s EXCEPT !.vis[fr.t] = TRUE]), 0)}
         [] fr.f = "tnew" -> {Ret(Pop([s EXCEPT !.fut[fr.t] = @ + 1]), 0)}
         [] fr.f = "awn" -> {Await(Pop(s), fr.t, "c", fr.j, "tmp")}
         [] fr.f = "call" -> {Ret(Pop(s), fr.rc)}
         [] OTHER -> {}
Internal == \E x \in Silent : s' = x
Quiet == s.pend.op = "none" /\ Top.f \in UserKinds /\ DeadGens(s) = {} /\ DeadTasks(s) = {}

-----------------------------------------------------------------------------
(* what a user sees *)
CSnap(i) ==
  IF s.ex[i] = CALL /\ s.vis[i] THEN <<1, B(s.ret[i]), s.st[i]>>
  ELSE IF s.ex[i] = TASK /\ s.fut[i] > 0 THEN <<2, s.st[i], B(s.st[i] >= DONE), B(s.st[i] >= DONE /\ s.ret[i]), B(s.st[i] >= KILLED), B(s.st[i] = CANCEL),
                                                B(s.st[i] >= TIMEOUT), B(s.ret[i]), IF s.ret[i] /\ Mode \in {0, 3} THEN s.dat[i] ELSE 0>>
  ELSE <<0>>
GSnap(g) == IF s.gx[g] /\ (s.gs[g] \/ s.gk[g]) THEN <<1, B(s.grd[g])>> ELSE <<0>>
RECURSIVE Mask(_)
Mask(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN 2^(i-1) + Mask(S \ {i})
MSnap(m) == LET g == s.mg[m] IN
  IF ~g.a THEN <<0>> ELSE <<1, Cardinality(g.mem), Cardinality({i \in Ids : g.dl[i] # <<>>}), g.last[1], g.last[2], Mask(g.mem)>>
(* continuations hold no counted objects of the user *)
Idle == Len(s.stk) = 1
Snap == [c |-> [i \in Ids |-> CSnap(i)], g |-> [g \in Gs |-> GSnap(g)], m |-> [m \in Ms |-> MSnap(m)],
         p |-> [i \in Ids |-> B(s.ex[i] # FREE /\ s.th[i] = 0)], l |-> [i \in Ids |-> B(s.ex[i] # FREE /\ s.th[i] = 0 /\ s.ent[i] /\ ~s.ret[i])],
         n |-> IF Idle THEN Cardinality({i \in Ids : s.ex[i] # FREE /\ s.th[i] # 0}) ELSE -1]
Full(p) == [op |-> p.op, wf |-> Top.f, wt |-> Top.t, rc |-> p.rc, x |-> p.x, s |-> Snap, bad |-> 0]
Pending(e) == s.pend.op # "none" /\ e = Full(s.pend)
Observe == s.pend.op # "none" /\ s' = [s EXCEPT !.pend = NoObs]

-----------------------------------------------------------------------------
(* commands *)
Created(st, i, kind) == [st EXCEPT !.ex[i] = kind]
New(st, i, fr) == Say(Push(Push([st EXCEPT !.ex[i] = CALL, !.st[i] = RUNNING, !.ent[i] = TRUE], fr), F("body", i)), Obs("enter", i, 0))
TNew(i) == Push([s EXCEPT !.ex[i] = TASK, !.st[i] = CREATED, !.sp[i] = <<"init", 0>>], F("tnew", i))
Then(i, j, mode) ==
  IF mode = CALL THEN Push(Push([s EXCEPT !.ex[j] = CALL, !.st[j] = RUNNING, !.ent[j] = TRUE, !.th[j] = i], F("new", j)), [F("tb", j) EXCEPT !.ph = "go"])
  ELSE Resume(Push([s EXCEPT !.ex[j] = TASK, !.st[j] = RUNNING, !.th[j] = i, !.sp[j] = <<"init", 0>>], F("tnew", j)), j)
NoStart(i) == s.lk[i] \/ s.ret[i] \/ s.st[i] # CREATED
Start(i) == IF NoStart(i) THEN Ret(s, 0)
            ELSE Resume(Push([s EXCEPT !.st[i] = RUNNING], [F("call", i) EXCEPT !.rc = 1]), i)
Kill(i, t, force) == IF Refused(s, i, t) THEN Ret(s, 0) ELSE KillIn(Push(s, [F("call", i) EXCEPT !.rc = 1]), i, t, force)
GSet(g, v) == LET s1 == Push(Push([s EXCEPT !.grd[g] = TRUE, !.gv[g] = IF Mode = 2 THEN 0 ELSE v, !.gt[g] = 0, !.gcl[g] = {}], F("call", 0)), F("gset", g))
              IN Push(s1, [F("wake", g) EXCEPT !.R = s.gcl[g]])

Timer(m, to) == IF to = <<0, 0>> THEN <<>> ELSE Add(s.mg[m].last, to)
MRc(rc) == [F("call", 0) EXCEPT !.rc = rc]
MAdd(m, i, to) ==
  IF s.mg[m].rs THEN Ret(s, IN_RESET) ELSE IF s.st[i] >= DONE THEN Ret(s, EXITING)
  ELSE IF i \in s.mg[m].mem THEN Ret(s, EXIST) ELSE IF MemberOf(s, i) # {} THEN Ret(s, OTHER_MGR)
  ELSE Ret([s EXCEPT !.mg[m].mem = @ \cup {i}, !.mg[m].dl[i] = Timer(m, to)], 0)
MSet(m, i, to) ==
  IF s.mg[m].rs THEN Ret(s, IN_RESET) ELSE IF i \notin s.mg[m].mem THEN Ret(s, NOT_FOUND)
  ELSE Ret([s EXCEPT !.mg[m].dl[i] = Timer(m, to)], 0)
(* c: 0 remove by id only, 1 also give the right task, 2 give some other task *)
MRem(m, i, c) ==
  IF s.mg[m].rs THEN Ret(s, IN_RESET) ELSE IF i \notin s.mg[m].mem \/ c = 2 THEN Ret(s, NOT_FOUND)
  ELSE LET s1 == Push(Push(MRemove(s, m, i), MRc(0)), MOp(i, m)) IN IF s.st[i] = RUNNING THEN KillIn(s1, i, KILLED, 0) ELSE s1
MStart(m, i) ==
  IF s.mg[m].rs THEN Ret(s, IN_RESET) ELSE IF i \notin s.mg[m].mem THEN Ret(s, NOT_FOUND)
  ELSE LET s1 == Push(Push(s, MRc(0)), [MOp(i, m) EXCEPT !.ph = "start"]) IN
       IF NoStart(i) THEN s1 ELSE Resume([s1 EXCEPT !.st[i] = RUNNING], i)
MKill(m, i, t) ==
  IF s.mg[m].rs THEN Ret(s, IN_RESET) ELSE IF i \notin s.mg[m].mem THEN Ret(s, NOT_FOUND)
  ELSE KillIn(Push(Push(MRemove(s, m, i), MRc(0)), MOp(i, m)), i, t, 0)
MTick(m, t) ==
  IF ~Lt(s.mg[m].last, t) \/ s.mg[m].tk THEN Ret(s, 0)
  ELSE IF s.mg[m].rs THEN Ret(s, IN_RESET)
  ELSE IF s.mg[m].last = <<0, 0>>
       THEN Ret([s EXCEPT !.mg[m].last = t, !.mg[m].dl = [i \in Ids |-> IF @[i] = <<>> THEN <<>> ELSE Add(@[i], t)]], 0)
  ELSE Push(Push([s EXCEPT !.mg[m].tk = TRUE], MRc(0)), [F("mtick", m) EXCEPT !.l = t])
MReset(m, k) ==
  IF s.mg[m].rs THEN Ret(s, 0)
  ELSE LET mem == s.mg[m].mem
           s1 == [s EXCEPT !.mg[m] = [@ EXCEPT !.mem = {}, !.dl = [i \in Ids |-> <<>>], !.last = <<0, 0>>, !.rs = TRUE]]
       IN Push(Push(Push(s1, MRc(0)), [F("mrel", m) EXCEPT !.R = mem, !.k = k]), [F("mrst", m) EXCEPT !.R = mem])

Edges(st, x) == {e[2] : e \in {e \in st.won[x] : e[1] \notin {"g", "sg"}}}
RECURSIVE Reach(_, _, _)
Reach(st, S, n) == IF n = 0 THEN S ELSE Reach(st, S \cup UNION {Edges(st, x) : x \in S}, n - 1)

HasC(i) == i \in Ids /\ s.ex[i] = CALL /\ s.vis[i]
HasT(i) == i \in Ids /\ s.ex[i] = TASK /\ s.fut[i] > 0
Has(i) == HasC(i) \/ HasT(i)
Awaited(i) == \E x \in AIds : <<"c", i>> \in s.won[x]
MayAwait(i, j) == j # i /\ i \notin Reach(s, {j}, N)
InBody == Top.f = "body"
GInUse(g) == \E fr \in FrameSet(s) : fr.f = "aw" /\ fr.k = "g" /\ fr.j = g
GAwaited(g) == GInUse(g) \/ \E fr \in FrameSet(s) : fr.f = "gdel" /\ fr.t = g

(* a running coroutine may not be destroyed: ending x ends the awaiting expressions of whom it waits for, and what lives in them *)
SomeRunning == \E fr \in FrameSet(s) : fr.f = "rcb" /\ fr.k = "s"
NoRunTmp(x) == \A y \in Reach(s, {x}, N) : (s.sp[y][1] = "c" /\ s.sp[y][3] = "tmp") =>
                  IF s.sp[y][2] > N THEN ~SomeRunning ELSE ~OnStack(s, s.sp[y][2])
(* what some() waits for has to stay, and a resume callback of some() may not complete other members *)
Member(k, j) == \E x \in Ids : <<k, j>> \in s.won[x]
(* the last reference of a running task may not go away *)
RECURSIVE KeepsRunning(_, _)
KeepsRunning(i, n) == LET p == s.th[i] IN IF p = 0 \/ n = 0 THEN TRUE ELSE (OnStack(s, p) => s.fut[p] > 0) /\ NoRunTmp(p) /\ KeepsRunning(p, n - 1)

(* managers hold a reference: it may go away when the task does not run, or when somebody below on the stack holds one too *)
Held(i) == \E fr \in FrameSet(s) : fr.f \in {"mop", "ff"} /\ fr.t = i
LegalRm(i) == NoRunTmp(i) /\ (s.fut[i] = 0 => KeepsRunning(i, N) /\ (Held(i) \/ ~OnStack(s, i)))
HasM(m) == m \in Ms /\ s.mg[m].a
MgrInUse(m) == \E fr \in FrameSet(s) : (fr.f = "mop" /\ fr.j = m) \/ (fr.f \in {"mtick", "mrel", "mrst"} /\ fr.t = m)
KnownT(i) == i \in Ids /\ s.ex[i] = TASK /\ ~\E fr \in FrameSet(s) : fr.f = "tnew" /\ fr.t = i
RECURSIVE Bits(_, _)
Bits(x, j) == IF x = 0 THEN <<>> ELSE IF x % 2 = 1 THEN <<j>> \o Bits(x \div 2, j + 1) ELSE Bits(x \div 2, j + 1)
Mems(x) == {Bits(x, 1)[q] : q \in 1..Len(Bits(x, 1))}
Legal(c) ==
  CASE c[1] \in {"new", "tnew"} -> s.ex[c[2]] = FREE
    [] c[1] = "then" -> HasT(c[2]) /\ s.ex[c[3]] = FREE
    [] c[1] = "start" -> HasT(c[2])
    [] c[1] = "kill" -> Has(c[2]) /\ (c[4] = 1 => ~OnStack(s, c[2])) /\ NoRunTmp(c[2])
    [] c[1] = "copy" -> HasT(c[2]) /\ s.fut[c[2]] < 2
    [] c[1] \in {"drop", "dropm"} ->
            /\ \/ HasC(c[2]) /\ ~OnStack(s, c[2]) /\ ~Awaited(c[2]) /\ ~Member("sc", c[2])
               \/ HasT(c[2]) /\ (s.fut[c[2]] = 1 => (~OnStack(s, c[2]) \/ Held(c[2]) \/ \E m \in MemberOf(s, c[2]) : ~s.mg[m].tk) /\ ~Member("st", c[2]))
            /\ NoRunTmp(c[2]) /\ KeepsRunning(c[2], N)
    [] c[1] = "awn" -> InBody /\ s.ex[c[2]] = FREE
    [] c[1] = "awc" -> InBody /\ HasC(c[2]) /\ ~Awaited(c[2]) /\ MayAwait(Top.t, c[2]) /\ NoRunTmp(c[2])
    [] c[1] = "awt" -> InBody /\ HasT(c[2]) /\ MayAwait(Top.t, c[2])
    [] c[1] = "awg" -> InBody /\ s.gs[c[2]]
    [] c[1] \in {"ret", "ys"} -> InBody
    [] c[1] = "gnew" -> ~s.gx[c[2]]
    [] c[1] = "gdrop" -> s.gx[c[2]] /\ s.gs[c[2]] /\ (s.gk[c[2]] \/ ~GInUse(c[2])) /\ ~Member("sg", c[2])
    [] c[1] = "gkeep" -> s.gx[c[2]] /\ s.gs[c[2]] /\ ~s.gk[c[2]]
    [] c[1] = "grel" -> s.gx[c[2]] /\ s.gk[c[2]] /\ (s.gs[c[2]] \/ ~GInUse(c[2]))
    [] c[1] = "gset" -> s.gx[c[2]] /\ (s.gs[c[2]] \/ s.gk[c[2]]) /\ (Member("sg", c[2]) => ~SomeRunning)
    [] c[1] = "smc" -> InBody /\ \A j \in Mems(c[3]) : HasC(j) /\ MayAwait(Top.t, j)
    [] c[1] = "smt" -> InBody /\ \A j \in Mems(c[3]) : HasT(j) /\ MayAwait(Top.t, j)
    [] c[1] = "smg" -> InBody /\ \A g \in Mems(c[3]) : s.gs[g]
    [] c[1] = "greset" -> s.gx[c[2]] /\ (s.gs[c[2]] \/ s.gk[c[2]]) /\ ~GAwaited(c[2]) /\ ~Member("sg", c[2])
    [] c[1] = "back" -> Top.f \in {"scb", "rcb"}
    [] c[1] = "fret" -> Top.f = "fn"
    [] c[1] = "mnew" -> ~s.mg[c[2]].a
    [] c[1] = "mdel" -> HasM(c[2]) /\ ~MgrInUse(c[2]) /\ \A i \in s.mg[c[2]].mem : LegalRm(i)
    [] c[1] \in {"mreset", "mtick"} -> HasM(c[2]) /\ \A i \in s.mg[c[2]].mem : LegalRm(i)
    [] c[1] = "madd" -> HasM(c[2]) /\ HasT(c[3]) /\ KnownT(c[3]) /\ (s.mg[c[2]].tk => LegalRm(c[3]))
    [] c[1] = "mset" -> HasM(c[2]) /\ KnownT(c[3]) /\ (s.mg[c[2]].tk => LegalRm(c[3]))
    [] c[1] \in {"mstart", "mrem", "mkill", "mcancel"} -> HasM(c[2]) /\ KnownT(c[3]) /\ LegalRm(c[3])
    [] OTHER -> FALSE

NewSome(i, k, n, mask) ==
  LET S == N + i  q == Bits(mask, 1)
      r == SelectSeq(q, LAMBDA j : ~MemPending(s, k, j))  p == SelectSeq(q, LAMBDA j : MemPending(s, k, j))
      s1 == [s EXCEPT !.ex[S] = CALL, !.st[S] = RUNNING, !.ent[S] = TRUE, !.won[i] = {<<"c", S>>} \cup {<<"s" \o k, j>> : j \in Mems(mask)},
                      !.sm[S] = [k |-> k, n |-> n, p |-> p, r |-> r, w |-> Len(r), b |-> IF n > Len(q) THEN Len(q) ELSE n, st |-> RUNNING, reg |-> FALSE, out |-> FALSE]]
  IN Push(Push(s1, [F("awn", i) EXCEPT !.j = S]), [F("some", S) EXCEPT !.ph = "start"])
V(v) == IF Mode = 2 THEN 0 ELSE v
AwaitCmd(k, j) == Await([s EXCEPT !.won[Top.t] = {<<k, j>>}], Top.t, k, j, "")
Result(c) ==
  CASE c[1] = "new" -> New(s, c[2], F("new", c[2]))
    [] c[1] = "tnew" -> TNew(c[2])
    [] c[1] = "then" -> Then(c[2], c[3], c[4])
    [] c[1] = "start" -> Start(c[2])
    [] c[1] = "kill" -> Kill(c[2], c[3], c[4])
    [] c[1] = "copy" -> Ret([s EXCEPT !.fut[c[2]] = @ + 1], 0)
    [] c[1] \in {"drop", "dropm"} -> IF s.ex[c[2]] = TASK THEN Push([s EXCEPT !.fut[c[2]] = @ - 1], F("call", 0))
                        ELSE Push(Push([s EXCEPT !.vis[c[2]] = FALSE], F("call", 0)), F("drop", c[2]))
    [] c[1] = "awn" -> New([s EXCEPT !.won[Top.t] = {<<"c", c[2]>>}], c[2], [F("awn", Top.t) EXCEPT !.j = c[2]])
    [] c[1] = "awc" -> AwaitCmd("c", c[2])
    [] c[1] = "awt" -> AwaitCmd("t", c[2])
    [] c[1] = "awg" -> AwaitCmd("g", c[2])
    [] c[1] = "smc" -> NewSome(Top.t, "c", c[2], c[3])
    [] c[1] = "smt" -> NewSome(Top.t, "t", c[2], c[3])
    [] c[1] = "smg" -> NewSome(Top.t, "g", c[2], c[3])
    [] c[1] = "ret" -> Finish(s, Top.t, V(c[2]))
    [] c[1] = "ys" -> Ret(s, s.st[Top.t])
    [] c[1] = "gnew" -> Ret([s EXCEPT !.gx[c[2]] = TRUE, !.gs[c[2]] = TRUE], 0)
    [] c[1] = "gdrop" -> Push([s EXCEPT !.gs[c[2]] = FALSE], F("call", 0))
    [] c[1] = "gkeep" -> Ret([s EXCEPT !.gk[c[2]] = TRUE], 0)
    [] c[1] = "grel" -> Push([s EXCEPT !.gk[c[2]] = FALSE], F("call", 0))
    [] c[1] = "gset" -> GSet(c[2], c[3])
    [] c[1] = "greset" -> Ret([s EXCEPT !.grd[c[2]] = FALSE, !.gv[c[2]] = 0, !.gt[c[2]] = 0], 0)
    [] c[1] = "back" -> Pop(s)
    [] c[1] = "mnew" -> Ret([s EXCEPT !.mg[c[2]] = [Mgr0 EXCEPT !.a = TRUE]], 0)
    [] c[1] \in {"mdel", "mreset"} -> MReset(c[2], c[1])
    [] c[1] = "mtick" -> MTick(c[2], <<c[3], c[4]>>)
    [] c[1] = "madd" -> MAdd(c[2], c[3], <<c[4], c[5]>>)
    [] c[1] = "mset" -> MSet(c[2], c[3], <<c[4], c[5]>>)
    [] c[1] = "mrem" -> MRem(c[2], c[3], c[4])
    [] c[1] = "mstart" -> MStart(c[2], c[3])
    [] c[1] = "mcancel" -> MKill(c[2], c[3], CANCEL)
    [] c[1] = "mkill" -> MKill(c[2], c[3], c[4])
    [] c[1] = "fret" -> LET j == Top.t IN Finish(Pop(s), j, V(c[2]))
Do(c) == s' = Result(c)

Kst == IF Ft("status") THEN 2..6 ELSE {KILLED}
Force == IF Ft("force") THEN {0, 1} ELSE {0}
AllCmds ==
  {<<"ret", v>> : v \in Vals} \cup {<<"back">>} \cup {<<"fret", v>> : v \in Vals}
  \cup (IF Ft("call") THEN {<<o, i>> : o \in {"new", "awc"}, i \in Ids} ELSE {})
  \cup (IF Ft("awn") THEN {<<"awn", i>> : i \in Ids} ELSE {})
  \cup (IF Ft("task") THEN {<<o, i>> : o \in {"tnew", "start", "awt"}, i \in Ids} ELSE {})
  \cup (IF Ft("copy") THEN {<<"copy", i>> : i \in Ids} ELSE {})
  \cup (IF Ft("then") THEN {<<"then", i, j, m>> : i \in Ids, j \in Ids, m \in {CALL, TASK}} ELSE {})
  \cup (IF Ft("kill") THEN {<<"kill", i, t, f>> : i \in Ids, t \in Kst, f \in Force} ELSE {})
  \cup (IF Ft("drop") THEN {<<"drop", i>> : i \in Ids} ELSE {}) \cup (IF Ft("dropm") THEN {<<"dropm", i>> : i \in Ids} ELSE {})
  \cup (IF Ft("ys") THEN {<<"ys">>} ELSE {})
  \cup {<<o, g>> : o \in {"gnew", "awg"}, g \in Gs} \cup {<<"gset", g, v>> : g \in Gs, v \in Vals}
  \cup (IF Ft("gdrop") THEN {<<"gdrop", g>> : g \in Gs} ELSE {})
  \cup (IF Ft("gkeep") THEN {<<o, g>> : o \in {"gkeep", "grel"}, g \in Gs} ELSE {})
  \cup (IF Ft("some") THEN (IF Ft("call") THEN {<<"smc", n, m>> : n \in 0..N, m \in 1..(2 ^ N - 1)} ELSE {})
                           \cup (IF Ft("task") THEN {<<"smt", n, m>> : n \in 0..N, m \in 1..(2 ^ N - 1)} ELSE {})
                           \cup {<<"smg", n, m>> : n \in 0..(NG + 1), m \in 1..(2 ^ NG - 1)} ELSE {})
  \cup (IF NM = 0 THEN {} ELSE
          {<<"mnew", m>> : m \in Ms}
     \cup {<<"madd", m, i, t[1], t[2]>> : m \in Ms, i \in Ids, t \in TTs(Timeouts)}
     \cup (IF Ft("mdel") THEN {<<"mdel", m>> : m \in Ms} ELSE {})
     \cup (IF Ft("mreset") THEN {<<"mreset", m>> : m \in Ms} ELSE {})
     \cup (IF Ft("mset") THEN {<<"mset", m, i, t[1], t[2]>> : m \in Ms, i \in Ids, t \in TTs(Timeouts)} ELSE {})
     \cup (IF Ft("mtick") THEN {<<"mtick", m, t[1], t[2]>> : m \in Ms, t \in TTs(Ticks)} ELSE {})
     \cup (IF Ft("mrem") THEN {<<"mrem", m, i, c>> : m \in Ms, i \in Ids, c \in 0..2} ELSE {})
     \cup (IF Ft("mop") THEN {<<o, m, i>> : o \in {"mstart", "mcancel"}, m \in Ms, i \in Ids}
                        \cup {<<"mkill", m, i, t>> : m \in Ms, i \in Ids, t \in {x \in Kst : x >= DONE}} ELSE {}))
  \cup (IF Ft("greset") THEN {<<"greset", g>> : g \in Gs} ELSE {})
(* with "hub" many coroutines wait for one generator, callable or task before anything else happens *)
Crowded == \/ \E g \in Gs : Cardinality(s.gcl[g]) >= 5 \/ s.grd[g]
           \/ \E m \in Ms : Cardinality(s.mg[m].mem) >= 5
           \/ Cardinality(s.cl[1]) >= 5 \/ \E i \in Ids : s.ex[i] # FREE /\ s.st[i] >= DONE
HubOk(c) == Ft("hub") /\ ~Crowded =>
  /\ c[1] \in {"gnew", "new", "tnew", "start", "awg", "awt", "awc", "back", "mnew", "madd"}
  /\ (c[1] \in {"awt", "awc"} => c[2] = 1)
  /\ (c[1] = "awg" => c[2] = 1 /\ (Ft("one") => Top.t = 1))
  /\ (c[1] = "madd" => c[3] \notin s.mg[c[2]].mem)
Ok(c) == /\ HubOk(c)
         /\ Legal(c)
         /\ (c[1] \notin {"ret", "back", "fret", "awc", "awt", "awg", "smc", "smt", "smg"} => Len(s.stk) <= MaxDepth)
         /\ (c[1] \in {"new", "tnew", "awn"} => \A i \in Ids : i < c[2] => s.ex[i] # FREE)
         /\ (c[1] = "then" => \A i \in Ids : i < c[3] => s.ex[i] # FREE)
         /\ (c[1] = "gnew" => \A g \in Gs : g < c[2] => s.gx[g])
         /\ (c[1] = "gset" => ~s.grd[c[2]] \/ Ft("gagain"))
         /\ (~Ft("nest") => (c[1] \in {"ret", "back", "fret", "awc", "awt", "awg", "smc", "smt", "smg", "awn"} \/ Top.f = "main"))
Cmds == {c \in AllCmds : Ok(c)}
Next == \/ (Quiet /\ \E c \in Cmds : Do(c)) \/ Internal \/ Observe

-----------------------------------------------------------------------------
Callers(st) == UNION {st.cl[j] : j \in AIds} \cup UNION {st.gcl[g] : g \in Gs} \cup UNION {fr.R : fr \in {fr \in FrameSet(st) : fr.f \in {"fin", "wake", "gdel"}}}
(* P01, P03, P05, P06: only suspended coroutines are ever resumed *)
JustResumed(i) == \E fr \in FrameSet(s) : fr.f = "aw" /\ fr.t = i /\ fr.c /\ fr.ph \in {"", "tmp"}
OnlySuspendedResumed == \A i \in Callers(s) : s.ex[i] # FREE /\ ~s.ret[i] /\ (s.sp[i] # No \/ JustResumed(i) \/ i > N)
NoBadResume == \A fr \in FrameSet(s) : fr.f = "aw" => fr.k # "no"
OneBody == \A i \in AIds : Cardinality({k \in 1..Len(s.stk) : s.stk[k].f \in {"body", "tb", "some"} /\ s.stk[k].t = i}) <= 1
BodyIsRunning == \A k \in 1..Len(s.stk) : s.stk[k].f \in {"body", "tb"} => OnStack(s, s.stk[k].t)
(* whoever is suspended on something that is not there yet is registered with it, or about to be resumed by it *)
RegisteredC == \A i \in AIds : s.sp[i][1] \in {"c", "t"} =>
                  (Reg(s, i, s.sp[i][2]) \/ s.st[s.sp[i][2]] > DONE \/ s.st[i] > DONE \/ s.wt[i] = 0)
RegisteredG == \A i \in AIds : s.sp[i][1] = "g" =>
                  LET g == s.sp[i][2] IN s.gx[g] /\ (i \in s.gcl[g] \/ \E fr \in FrameSet(s) : fr.f \in {"wake", "gdel"} /\ fr.t = g /\ i \in fr.R)
(* P04 *)
FinalSticky == [][\A i \in AIds : s.st[i] >= DONE => (s'.st[i] = s.st[i] \/ s'.ex[i] = FREE)]_s
Forward == [][\A i \in AIds : s.ex[i] # FREE /\ s'.ex[i] # FREE => s.st[i] <= s'.st[i]]_s
LazyStart == \A i \in AIds : (s.ex[i] = TASK /\ s.st[i] = CREATED) => ~s.ent[i]
ReadyMeansEnded == \A i \in AIds : s.ret[i] => s.st[i] >= DONE
(* P06 *)
Reclaimed == Quiet => \A i \in Ids : s.ex[i] = FREE \/ s.vis[i] \/ (s.ex[i] = TASK /\ FutRefs(s, i) > 0) \/ Len(s.stk) > 1 \/ \E x \in AIds : <<"c", i>> \in s.won[x]
(* P07 *)
\* (a kill may also say that it is done)
SomeSound == Ft("status") \/ \A S \in AIds : (S > N /\ s.ret[S] /\ s.dat[S] = DONE) => Len(s.sm[S].r) >= s.sm[S].b
Busily(S) == \E fr \in FrameSet(s) : (fr.f \in {"fin", "wake", "gdel"} /\ S \in fr.R) \/ (fr.f = "ssus" /\ fr.t = S)
SomeCompletes == Quiet => \A S \in AIds : (S > N /\ s.sp[S][1] = "some" /\ ~Busily(S)) =>
                   LET m == s.sm[S] IN Len(m.r) + Cardinality({q \in 1..Len(m.p) : IF m.k = "g" THEN s.grd[m.p[q]] ELSE s.ret[m.p[q]]}) < m.b
SomeDetached == \A S \in AIds : (S > N /\ s.ret[S]) => ~(\E j \in AIds : S \in s.cl[j]) /\ ~(\E g \in Gs : S \in s.gcl[g])
(* P03: nobody waits for a generator that has a value *)
NoIdleWaiter == Quiet => \A g \in Gs : s.grd[g] => s.gcl[g] = {}
(* M01: in at most one manager, only live tasks, timers only of members *)
InOne == \A i \in Ids : Cardinality(MemberOf(s, i)) <= 1 /\ (MemberOf(s, i) # {} => s.ex[i] = TASK /\ ~s.ret[i])
TimersOfMembers == \A m \in Ms : \A i \in Ids : s.mg[m].dl[i] # <<>> => i \in s.mg[m].mem
(* M02: a tick never ends a task whose deadline has not passed *)
NeverEarly == [][\A m \in Ms : (Top.f = "mtick" /\ Top.t = m) => \A i \in Ids : (s'.st[i] = TIMEOUT /\ s.st[i] # TIMEOUT) => Lt(s.mg[m].dl[i], Top.l)]_s
(* M03: what a reset or a tick has to end is ended *)
ResetEnds == \A fr \in FrameSet(s) : fr.f = "mrel" => \A i \in fr.R : (s.st[i] >= DONE \/ \E g \in FrameSet(s) : g.f = "mrst" /\ g.t = fr.t /\ i \in g.R)
====