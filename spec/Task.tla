---- MODULE Task ----
(* Stackful tasks and their manager (T01-T06, M01-M03).
   The control stack s.stk holds user frames (main program, task bodies, completion callbacks, continuations of C++20
   watchers) and library frames.  User frames issue commands; library frames advance silently until user code gets
   control again, which is observed together with everything a user can see.  A suspended task keeps the part of the
   control stack that lives on its own stack in s.sus[i]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, NW, NM, Privs, Timeouts, Ticks, Features, MaxNext, MaxDepth
Ids == 1..N
Ws == 1..NW
Ms == 1..NM
VARIABLE s
vars == s

OK == 0
IN_RESET == -104
IS_RUNNING == -1006
FINISHED == -1007
NOT_FOUND == -1008
EXIST == -1009
ARGS == -1010
WAIT_SELF == -3001
EXITING == -3002
NOT_IN_ACTION == -3004
OTHER_MGR == -3005
KILLED_CALLER == -3006

NONE == 0  CREATED == 1  RUNNING == 2  WAITING == 3  DONE == 4  CANCELED == 5  KILLED == 6  TIMEOUT == 7

NoObs == [op |-> "none", rc |-> 0, x |-> 0, e |-> <<>>]
Obs(op, rc, x) == [op |-> op, rc |-> rc, x |-> x, e |-> <<>>]
F(f, t) == [f |-> f, t |-> t, k |-> "", p |-> 0, ph |-> "", l |-> <<>>, rc |-> 0, ex |-> <<>>, hold |-> {}, m |-> 0, lst |-> FALSE, set |-> {}, now |-> <<0, 0>>]
(* kinds of tasks: 0 own action object, 1 functor, 2 function, 3 member function, 4 functor without a result (3 and 4 report code 0), 5 own action
   made in place; only an action object of the user has a completion callback.  8 and 9: the creation fails. *)
Custom == {0, 5}
UserKinds == {"main", "body", "cb", "wake"}
Bases == {"op", "reap"}

Mgr0 == [a |-> FALSE, mem |-> {}, dl |-> [i \in Ids |-> <<>>], last |-> <<0, 0>>, rs |-> FALSE, tk |-> FALSE]
Init == s = [ts |-> [i \in Ids |-> NONE], fin |-> [i \in Ids |-> FALSE], ent |-> [i \in Ids |-> FALSE],
             code |-> [i \in Ids |-> 0], kd |-> [i \in Ids |-> 0], h |-> [i \in Ids |-> 0], nxt |-> [i \in Ids |-> <<>>],
             bind |-> [i \in Ids |-> 0], sus |-> [i \in Ids |-> <<>>], fp |-> [i \in Ids |-> 0],
             reap |-> {}, stk |-> <<F("main", 0)>>, mg |-> [m \in Ms |-> Mgr0],
             w |-> [k \in Ws |-> 0], ws |-> [k \in Ws |-> 0], wl |-> [i \in Ids |-> {}], pend |-> NoObs]

-----------------------------------------------------------------------------
(* helpers on states *)
TopOf(st) == st.stk[Len(st.stk)]
Top == TopOf(s)
Push(st, fr) == [st EXCEPT !.stk = Append(@, fr)]
Pop(st) == [st EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
SetTop(st, fr) == [st EXCEPT !.stk[Len(st.stk)] = fr]
Say(st, o) == [st EXCEPT !.pend = o]

LastIdx(q, P(_)) == LET S == {k \in 1..Len(q) : P(q[k])} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
IsBody(fr) == fr.f = "body"
IsBase(fr) == fr.f \in Bases
Cur(st) == LET k == LastIdx(st.stk, IsBody) IN IF k = 0 THEN 0 ELSE st.stk[k].t
Frames(st) == {st.stk[k] : k \in 1..Len(st.stk)} \cup UNION {{st.sus[i][k] : k \in 1..Len(st.sus[i])} : i \in Ids}

(* an exception travels to the operation that is being executed on this thread of control *)
AddEx(st, x) == LET k == LastIdx(st.stk, IsBase) IN IF st.stk[k].f = "op" THEN [st EXCEPT !.stk[k].ex = Append(@, x)] ELSE st
BaseOf(st) == LET k == LastIdx(st.stk, IsBase) IN IF k = 0 THEN F("none", 0) ELSE st.stk[k]

(* times are generated from integers: 10 * seconds + index into a table of nanoseconds *)
Nsec == <<0, 1, 400000000, 500000000, 600000000, 999999999>>
TT(x) == <<x \div 10, Nsec[1 + (x % 10)]>>
TTs(S) == {TT(x) : x \in S}

Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Add(a, b) == LET n == a[2] + b[2] IN IF n >= 1000000000 THEN <<a[1] + b[1] + 1, n - 1000000000>> ELSE <<a[1] + b[1], n>>

(* who keeps object i alive *)
Referenced(st, i) == \/ st.h[i] > 0
                     \/ \E j \in Ids : \E k \in 1..Len(st.nxt[j]) : st.nxt[j][k][1] = i
                     \/ \E fr \in Frames(st) : i \in fr.hold
                     \/ \E m \in Ms : i \in st.mg[m].mem
Dead(st) == {i \in Ids : st.ts[i] # NONE /\ i \notin st.reap /\ ~Referenced(st, i)}
(* a call made directly on task i is in progress somewhere: its caller has to keep a handle *)
InUse(st, i) == \E fr \in Frames(st) : fr.f = "op" /\ fr.t = i
MgrInUse(st, m) == \E fr \in Frames(st) : fr.f = "op" /\ fr.m = m

Ended(st, i) == st.ts[i] >= DONE
Completed(st, i) == st.fin[i]
Gone(st, i) == Ended(st, i) \/ Completed(st, i)

(* the coroutine of task i gets control with value p *)
Enter(st, i, p) ==
  IF ~st.ent[i] THEN Say(Push([st EXCEPT !.ent[i] = TRUE], F("body", i)), Obs("enter", i, p))
  ELSE LET seg == st.sus[i]
           s1 == [st EXCEPT !.stk = @ \o seg, !.sus[i] = <<>>] IN
       IF seg[Len(seg)].f \in UserKinds THEN Say(s1, Obs("yret", OK, p))
       ELSE IF seg[Len(seg)].f = "yn" THEN SetTop(s1, [TopOf(s1) EXCEPT !.rc = @ - 1, !.p = p])
       ELSE s1

Suspend(st, i) == LET k == LastIdx(st.stk, IsBody) IN
  [st EXCEPT !.sus[i] = SubSeq(st.stk, k, Len(st.stk)), !.stk = SubSeq(st.stk, 1, k - 1)]

Activate(st, i, p) == IF st.ts[i] \in {CREATED, WAITING}
                      THEN Enter(Push([st EXCEPT !.ts[i] = RUNNING], [F("run", i) EXCEPT !.p = p]), i, p)
                      ELSE st
ActivateRc(st, i) == IF st.ts[i] >= DONE THEN FINISHED ELSE IF st.ts[i] = RUNNING THEN IS_RUNNING ELSE OK
Fin(i, p, ph) == [F("fin", i) EXCEPT !.p = p, !.ph = ph]
End(st, i, status, p) == IF st.ts[i] = RUNNING THEN [st EXCEPT !.ts[i] = status, !.fp[i] = p]
                         ELSE Push([st EXCEPT !.ts[i] = status], Fin(i, p, "drive"))

WakeRc(st, i) == IF st.ts[i] \in {CANCELED, KILLED, TIMEOUT} THEN EXITING
                 ELSE IF st.ts[i] = DONE THEN st.code[i] ELSE KILLED_CALLER

MRemove(st, m, i) == [st EXCEPT !.mg[m].mem = @ \ {i}, !.mg[m].dl[i] = <<>>, !.bind[i] = IF @ = m THEN 0 ELSE @]
Overdue(st, m, now) == {i \in st.mg[m].mem : st.mg[m].dl[i] # <<>> /\ Lt(st.mg[m].dl[i], now)}
First(st, m, S) == {i \in S : \A j \in S : ~Lt(st.mg[m].dl[j], st.mg[m].dl[i])}
Lowest(S) == {CHOOSE i \in S : \A j \in S : i <= j}
Pick(S) == IF "lenient" \in Features THEN S ELSE Lowest(S)

Destroy(st, i) == [st EXCEPT !.ts[i] = NONE, !.fin[i] = FALSE, !.ent[i] = FALSE, !.code[i] = 0, !.nxt[i] = <<>>, !.sus[i] = <<>>,
                             !.fp[i] = 0, !.kd[i] = 0, !.reap = @ \ {i}]

-----------------------------------------------------------------------------
(* one silent step of the library; a set because some orders are unspecified *)
StepRun(fr) == LET i == fr.t IN
  IF s.fin[i] THEN {SetTop([s EXCEPT !.ts[i] = IF @ < DONE THEN DONE ELSE @], Fin(i, fr.p, "drive"))}
  ELSE IF s.ts[i] >= DONE THEN {SetTop(s, Fin(i, s.fp[i], "drive"))}
  ELSE {Pop([s EXCEPT !.ts[i] = WAITING])}

StepFin(fr) == LET i == fr.t IN
  CASE fr.ph = "drive" /\ ~s.fin[i] -> {Enter(s, i, fr.p)}
    [] fr.ph = "drive" /\ s.fin[i] /\ s.kd[i] \notin Custom -> {SetTop(s, [fr EXCEPT !.ph = "cb"])}
    [] fr.ph = "drive" /\ s.fin[i] /\ s.kd[i] \in Custom -> {Say(Push(SetTop(s, [fr EXCEPT !.ph = "cb"]), F("cb", i)), Obs("onfin", i, 0))}
    [] fr.ph = "cb"  -> {SetTop([s EXCEPT !.nxt[i] = <<>>],
                                [fr EXCEPT !.ph = "act", !.l = s.nxt[i], !.hold = {s.nxt[i][k][1] : k \in 1..Len(s.nxt[i])}])}
    [] fr.ph = "act" /\ fr.l # <<>> ->
         LET s1 == SetTop(s, [fr EXCEPT !.l = Tail(@)]) IN {Activate(s1, fr.l[1][1], fr.l[1][2])}
    [] fr.ph = "act" /\ fr.l = <<>> -> {SetTop(s, [fr EXCEPT !.ph = "wake"])}
    [] fr.ph = "wake" /\ s.wl[i] # {} ->
         {Say(Push([s EXCEPT !.wl[i] = @ \ {k}, !.w[k] = 2], F("wake", k)), Obs("wake", k, WakeRc(s, i))) : k \in Pick(s.wl[i])}
    [] fr.ph = "wake" /\ s.wl[i] = {} ->
         LET m == s.bind[i] IN {Pop(IF m = 0 THEN s ELSE MRemove(s, m, i))}
(* followers may be let go as soon as they were activated *)
ReleaseEarly(fr) == IF "lenient" \in Features /\ fr.f = "fin" /\ fr.ph \in {"act", "wake"}
                    THEN {SetTop(s, [fr EXCEPT !.hold = @ \ {j}]) : j \in {j \in fr.hold : \A k \in 1..Len(fr.l) : fr.l[k][1] # j}}
                    ELSE {}

StepReap(fr) == LET i == fr.t IN
  IF fr.ph = "end" THEN
    (IF Referenced(s, i) THEN {Pop([s EXCEPT !.reap = @ \ {i}])} ELSE {Pop(Destroy(s, i))})
  ELSE LET s1 == SetTop(s, [fr EXCEPT !.ph = "end"]) IN
    CASE s.ts[i] = WAITING -> {End(s1, i, TIMEOUT, 0)}
      [] s.ts[i] = CREATED -> {Push(s1, Fin(i, 0, "cb"))}
      [] OTHER -> {s1}

StepAwait(fr) == LET i == fr.t  j == fr.p IN
  CASE fr.ph = "ret" -> {Say(Pop(s), Obs("awret", fr.rc, 0))}
    [] fr.ph # "ret" /\ Gone(s, j) -> {SetTop(s, [fr EXCEPT !.ph = "ret", !.hold = {}])}
    [] fr.ph # "ret" /\ ~Gone(s, j) /\ Ended(s, i) -> {SetTop(s, [fr EXCEPT !.ph = "ret", !.hold = {}, !.rc = EXITING])}
    [] OTHER -> {Suspend(s, i)}

(* a body that yields fr.rc more times without looking at what it gets; the last value is seen *)
StepYields(fr) == IF fr.rc = 0 THEN {Say(Pop(s), Obs("yret", OK, fr.p))} ELSE {Suspend(s, fr.t)}

(* an operation is complete when control is back in its frame *)
StepOp(fr) ==
  CASE fr.k = "mtick" /\ fr.ph = "" ->
         LET m == fr.m  od == Overdue(s, m, fr.now) IN
         IF od = {} THEN {SetTop([s EXCEPT !.mg[m].last = fr.now, !.mg[m].tk = FALSE], [fr EXCEPT !.ph = "ret", !.hold = {}])}
         ELSE {LET s1 == SetTop(MRemove(s, m, i), [fr EXCEPT !.hold = {i}]) IN
               IF s.ts[i] < DONE THEN End(s1, i, TIMEOUT, 0) ELSE s1
               : i \in (IF "lenient" \in Features THEN od ELSE Lowest(First(s, m, od)))}
    [] fr.k \in {"mreset", "mdel"} /\ fr.ph = "" ->
         IF fr.set = {} THEN {SetTop([s EXCEPT !.mg[fr.m] = IF fr.k = "mdel" THEN Mgr0 ELSE [@ EXCEPT !.rs = FALSE]], [fr EXCEPT !.ph = "ret", !.hold = {}])}
         ELSE {LET s1 == SetTop(s, [fr EXCEPT !.set = @ \ {i}]) IN
               IF s.ts[i] < DONE THEN End(s1, i, KILLED, 0) ELSE s1 : i \in Pick(fr.set)}
    [] fr.k = "mdrive" /\ fr.ph = "" ->
         LET m == fr.m  i == fr.p IN
         {SetTop(IF s.ts[i] >= DONE /\ i \in s.mg[m].mem THEN MRemove(s, m, i) ELSE s, [fr EXCEPT !.ph = "ret", !.hold = {}])}
    [] fr.ph = "" /\ fr.k \notin {"mtick", "mreset", "mdel", "mdrive"} -> {SetTop(s, [fr EXCEPT !.ph = "ret", !.hold = {}])}
    [] OTHER -> LET ex == IF fr.lst \/ fr.ex = <<>> THEN fr.ex ELSE <<fr.ex[1]>> IN
                {Say(Pop(s), [op |-> "ret", rc |-> IF fr.lst \/ fr.ex = <<>> THEN fr.rc ELSE 0, x |-> 0, e |-> ex])}

Silent ==
  IF s.pend.op # "none" THEN {}
  ELSE IF Dead(s) # {} THEN {Push([s EXCEPT !.reap = @ \cup {i}], F("reap", i)) : i \in Pick(Dead(s))}
  ELSE LET fr == Top IN
       CASE fr.f = "run" -> StepRun(fr)
         [] fr.f = "fin" -> StepFin(fr) \cup ReleaseEarly(fr)
         [] fr.f = "reap" -> StepReap(fr)
         [] fr.f = "await" -> StepAwait(fr)
         [] fr.f = "yn" -> StepYields(fr)
         [] fr.f = "op" -> StepOp(fr)
         [] OTHER -> {}
Internal == \E x \in Silent : s' = x

Quiet == s.pend.op = "none" /\ Top.f \in UserKinds /\ Dead(s) = {}

-----------------------------------------------------------------------------
B(b) == IF b THEN 1 ELSE 0
RECURSIVE Bits(_)
Bits(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN 2^(i-1) + Bits(S \ {i})
TSnap(i) == IF s.h[i] = 0 THEN <<0>>
            ELSE <<s.ts[i], B(s.ts[i] >= DONE), B(s.fin[i]), B(s.ts[i] = CANCELED), B(s.ts[i] >= KILLED), B(s.ts[i] = TIMEOUT), s.code[i]>>
MSnap(m) == LET g == s.mg[m] IN
  IF ~g.a THEN <<0>> ELSE <<1, Cardinality(g.mem), Cardinality({i \in Ids : g.dl[i] # <<>>}), g.last[1], g.last[2], Bits(g.mem)>>
WSnap(k) == IF s.w[k] \in {0, 6, 7, 8} THEN <<0>> ELSE <<B(s.w[k] \in {3, 5}), IF s.w[k] \in {1, 2} THEN 2 ELSE IF s.w[k] = 3 THEN 3 ELSE s.ws[k]>>
Snap == [t |-> [i \in Ids |-> TSnap(i)], o |-> [i \in Ids |-> B(s.ts[i] # NONE)], b |-> [i \in Ids |-> B(s.ent[i] /\ ~s.fin[i])], w |-> [k \in Ws |-> WSnap(k)],
         m |-> [m \in Ms |-> MSnap(m)]]
Full(p) == [op |-> p.op, wf |-> Top.f, wt |-> Top.t, rc |-> p.rc, x |-> p.x, e |-> p.e, cur |-> Cur(s), s |-> Snap, bad |-> 0]
Pending(e) == s.pend.op # "none" /\ e = Full(s.pend)
Observe == s.pend.op # "none" /\ s' = [s EXCEPT !.pend = NoObs]

-----------------------------------------------------------------------------
(* commands *)
Op(t, k, rc, lst) == [F("op", t) EXCEPT !.k = k, !.rc = rc, !.lst = (lst = 1)]
MOp(m, k, rc, lst) == [F("op", 0) EXCEPT !.k = k, !.m = m, !.rc = rc, !.lst = (lst = 1)]
Fail(rc) == Push(s, [F("op", 0) EXCEPT !.ph = "ret", !.rc = rc])
Fresh(i, k) == IF k >= 8 THEN s ELSE [s EXCEPT !.ts[i] = CREATED, !.h[i] = 1, !.kd[i] = k]

Drive(i, p, lst) == Activate(Push(s, Op(i, "drive", ActivateRc(s, i), lst)), i, p)
Kill(i, st, p, lst) == IF s.ts[i] >= DONE THEN Fail(FINISHED) ELSE End(Push(s, Op(i, "kill", OK, lst)), i, st, p)
Cancel(i, p, lst) == IF s.ts[i] >= DONE THEN Fail(FINISHED) ELSE IF s.ts[i] = RUNNING THEN Fail(IS_RUNNING)
                     ELSE End(Push(s, Op(i, "kill", OK, lst)), i, CANCELED, p)
NextIn(st, i, j, p) ==
  IF j = 0 \/ j = i THEN Fail(i)
  ELSE IF Gone(st, i) THEN Activate(Push(st, [Op(i, "next", j, 0) EXCEPT !.hold = {j}]), j, p)
  ELSE [Push(st, [F("op", 0) EXCEPT !.ph = "ret", !.rc = j]) EXCEPT !.nxt[i] = Append(@, <<j, p>>)]
NextCmd(i, j, p) == NextIn(s, i, j, p)
(* the follower is created in place; its body has not been entered when it is activated *)
ThenCmd(i, j, k, p) == NextIn(Fresh(j, k), i, j, p)
AwaitCmd(a, j) ==
  IF j = 0 THEN Say(s, Obs("awret", ARGS, 0))
  ELSE IF a = j THEN Say(s, Obs("awret", WAIT_SELF, 0))
  ELSE IF Gone(s, j) THEN Say(s, Obs("awret", EXITING, 0))
  ELSE IF Ended(s, a) THEN Say(s, Obs("awret", EXITING, 0))
  ELSE IF Cur(s) # a THEN Say(s, Obs("awret", NOT_IN_ACTION, 0))
  ELSE Push([s EXCEPT !.nxt[j] = Append(@, <<a, 0>>)], [F("await", a) EXCEPT !.p = j, !.hold = {j}])
FinishCmd(c) == LET i == Top.t IN Pop([s EXCEPT !.fin[i] = TRUE, !.code[i] = IF s.kd[i] \in {3, 4} THEN 0 ELSE c])
ThrowCmd(x) == LET i == Top.t IN AddEx(Pop(IF Top.f = "body" THEN [s EXCEPT !.fin[i] = TRUE] ELSE s), x)
WatchCmd(k, i) == LET s1 == Push(s, F("op", 0)) IN
  IF Ended(s, i) THEN Say(Push([s1 EXCEPT !.w[k] = 8], F("wake", k)), Obs("wake", k, WakeRc(s, i)))
  ELSE [s1 EXCEPT !.w[k] = 1, !.wl[i] = @ \cup {k}]
(* a waiting coroutine can be ended (and dropped) before the task: it continues at once and leaves the list.
   w: 1 waiting, 2 continued, 3 finished, 4 continued and killed, 5 finished as killed, 6 gone, 7 continued while being dropped,
   8 did not have to wait *)
AwaitedBy(k) == {i \in Ids : k \in s.wl[i]}
Unwait(k, st) == LET i == CHOOSE i \in Ids : k \in s.wl[i] IN
  Say(Push([Push(s, [F("op", 0) EXCEPT !.rc = 1]) EXCEPT !.w[k] = st, !.wl[i] = @ \ {k}], F("wake", k)), Obs("wake", k, IF Ended(s, i) THEN WakeRc(s, i) ELSE KILLED_CALLER))
WKillCmd(k, st) == IF s.w[k] = 1 THEN [Unwait(k, 4) EXCEPT !.ws[k] = st]
                   ELSE IF s.w[k] = 2 THEN [Fail(1) EXCEPT !.w[k] = 4, !.ws[k] = st] ELSE Fail(0)
WDropCmd(k) == IF s.w[k] = 1 THEN [Unwait(k, 7) EXCEPT !.stk[Len(s.stk) + 1].rc = 0] ELSE [Fail(0) EXCEPT !.w[k] = 6]
WRet == LET k == Top.t IN [Pop(s) EXCEPT !.w[k] = IF @ = 4 THEN 5 ELSE IF @ = 7 THEN 6 ELSE 3]

Timer(m, to) == IF to = <<0, 0>> THEN <<>> ELSE Add(s.mg[m].last, to)
MAdd(m, i, to) ==
  IF s.mg[m].rs THEN Fail(IN_RESET) ELSE IF Ended(s, i) THEN Fail(EXITING)
  ELSE IF i \in s.mg[m].mem THEN Fail(EXIST) ELSE IF s.bind[i] # 0 THEN Fail(OTHER_MGR)
  ELSE [Fail(OK) EXCEPT !.mg[m].mem = @ \cup {i}, !.mg[m].dl[i] = Timer(m, to), !.bind[i] = m]
MSet(m, i, to) ==
  IF s.mg[m].rs THEN Fail(IN_RESET) ELSE IF i \notin s.mg[m].mem THEN Fail(NOT_FOUND)
  ELSE [Fail(OK) EXCEPT !.mg[m].dl[i] = Timer(m, to)]
(* c: 0 remove by id only, 1 also give the right task, 2 give some other task *)
MRem(m, i, c) ==
  IF s.mg[m].rs THEN Fail(IN_RESET) ELSE IF i \notin s.mg[m].mem \/ c = 2 THEN Fail(NOT_FOUND)
  ELSE LET s1 == Push(MRemove(s, m, i), [MOp(m, "mrem", OK, 0) EXCEPT !.hold = {i}]) IN
       IF s.ts[i] \in {RUNNING, WAITING} THEN End(s1, i, KILLED, 0) ELSE s1
MDrive(m, i, p, lst) ==
  IF s.mg[m].rs THEN Fail(IN_RESET) ELSE IF i \notin s.mg[m].mem THEN Fail(NOT_FOUND)
  ELSE Activate(Push(s, [MOp(m, "mdrive", ActivateRc(s, i), lst) EXCEPT !.hold = {i}, !.p = i]), i, p)
MKill(m, i, st, p, lst) ==
  IF s.mg[m].rs THEN Fail(IN_RESET) ELSE IF i \notin s.mg[m].mem THEN Fail(NOT_FOUND)
  ELSE LET s1 == Push(MRemove(s, m, i), [MOp(m, "mkill", IF Ended(s, i) THEN FINISHED ELSE OK, lst) EXCEPT !.hold = {i}]) IN
       IF Ended(s, i) THEN s1 ELSE End(s1, i, st, p)
MCancel(m, i, p, lst) ==
  IF s.mg[m].rs THEN Fail(IN_RESET) ELSE IF i \notin s.mg[m].mem THEN Fail(NOT_FOUND)
  ELSE IF s.ts[i] = RUNNING THEN Fail(IS_RUNNING) ELSE IF Ended(s, i) THEN MKill(m, i, CANCELED, p, lst)
  ELSE End(Push(s, [MOp(m, "mdrive", OK, lst) EXCEPT !.hold = {i}, !.p = i]), i, CANCELED, p)
MTick(m, t) ==
  IF ~Lt(s.mg[m].last, t) \/ s.mg[m].tk THEN Fail(OK)
  ELSE IF s.mg[m].rs THEN Fail(IN_RESET)
  ELSE IF s.mg[m].last = <<0, 0>>
       THEN [Fail(OK) EXCEPT !.mg[m].last = t, !.mg[m].dl = [i \in Ids |-> IF @[i] = <<>> THEN <<>> ELSE Add(@[i], t)]]
  ELSE Push([s EXCEPT !.mg[m].tk = TRUE], [MOp(m, "mtick", OK, 0) EXCEPT !.now = t])
MReset(m, k) ==
  IF s.mg[m].rs THEN Fail(OK)
  ELSE LET mem == s.mg[m].mem IN
       Push([s EXCEPT !.mg[m] = [@ EXCEPT !.mem = {}, !.dl = [i \in Ids |-> <<>>], !.last = <<0, 0>>, !.rs = TRUE],
                      !.bind = [i \in Ids |-> IF i \in mem THEN 0 ELSE @[i]]],
            [MOp(m, k, OK, 0) EXCEPT !.set = mem, !.hold = mem])

Has(i) == i \in Ids /\ s.h[i] > 0
(* dropping the last handle while a call made through it is in progress is outside the contract *)
MayRemove(m, i) == i \in s.mg[m].mem => (s.h[i] > 0 \/ ~InUse(s, i))
HasCur == Cur(s) # 0 /\ LET k == LastIdx(s.stk, IsBody) IN \A j \in k..Len(s.stk) : s.stk[j].f # "wake"
(* nobody can receive an exception while an abandoned task is driven to its end *)
CanThrow == LET b == BaseOf(Pop(s)) IN b.f = "op" /\ b.k # "mdel"
(* an alive manager argument *)
HasM(m) == m \in Ms /\ s.mg[m].a
Known(i) == i \in Ids /\ s.ts[i] # NONE

Legal(c) ==
  CASE c[1] = "create" -> s.ts[c[2]] = NONE /\ c[2] \notin s.reap
    [] c[1] = "then" -> Has(c[2]) /\ s.ts[c[3]] = NONE /\ c[3] \notin s.reap /\ c[3] # c[2]
    [] c[1] = "drop" -> Has(c[2]) /\ ~InUse(s, c[2])
    [] c[1] \in {"start", "resume", "kill", "cancel"} -> Has(c[2])
    [] c[1] = "next" -> Has(c[2]) /\ (c[3] = 0 \/ Has(c[3]))
    [] c[1] = "await" -> (Has(c[2]) \/ (Cur(s) # 0 /\ Cur(s) = c[2])) /\ (c[3] = 0 \/ c[3] = c[2] \/ Has(c[3])) /\ Top.f # "wake"
                         /\ (Cur(s) = c[2] => HasCur)
    [] c[1] \in {"yield", "yn"} -> HasCur
    [] c[1] = "finish" -> Top.f = "body"
    [] c[1] = "throw" -> Top.f \in {"body", "cb"} /\ CanThrow
    [] c[1] = "cbret" -> Top.f = "cb"
    [] c[1] = "wret" -> Top.f = "wake"
    [] c[1] = "watch" -> s.w[c[2]] = 0 /\ Has(c[3])
    [] c[1] = "wkill" -> s.w[c[2]] \in 1..5
    [] c[1] = "wdrop" -> s.w[c[2]] \in {1, 3, 5}
    [] c[1] = "mnew" -> ~s.mg[c[2]].a
    [] c[1] = "mdel" -> HasM(c[2]) /\ ~MgrInUse(s, c[2])
    [] c[1] \in {"mreset", "mtick"} -> HasM(c[2])
    [] c[1] = "madd" -> HasM(c[2]) /\ Has(c[3])
    [] c[1] = "mset" -> HasM(c[2]) /\ Known(c[3])
    [] c[1] \in {"mstart", "mresume"} -> HasM(c[2]) /\ Known(c[3])
    [] c[1] \in {"mrem", "mkill", "mcancel"} -> HasM(c[2]) /\ Known(c[3]) /\ MayRemove(c[2], c[3])
    [] OTHER -> FALSE

Result(c) ==
  CASE c[1] = "create" -> Push(Fresh(c[2], c[3]), [F("op", 0) EXCEPT !.ph = "ret"])
    [] c[1] = "then" -> ThenCmd(c[2], c[3], c[4], c[5])
    [] c[1] = "drop" -> Push([s EXCEPT !.h[c[2]] = 0], F("op", 0))
    [] c[1] = "start" -> Drive(c[2], c[3], c[4])
    [] c[1] = "resume" -> Drive(c[2], c[3], c[4])
    [] c[1] = "kill" -> Kill(c[2], c[3], c[4], c[5])
    [] c[1] = "cancel" -> Cancel(c[2], c[3], c[4])
    [] c[1] = "next" -> NextCmd(c[2], c[3], c[4])
    [] c[1] = "await" -> AwaitCmd(c[2], c[3])
    [] c[1] = "yield" -> Suspend(s, Cur(s))
    [] c[1] = "yn" -> Push(s, [F("yn", Cur(s)) EXCEPT !.rc = c[2]])
    [] c[1] = "finish" -> FinishCmd(c[2])
    [] c[1] = "throw" -> ThrowCmd(c[2])
    [] c[1] = "cbret" -> Pop(s)
    [] c[1] = "wret" -> WRet
    [] c[1] = "watch" -> WatchCmd(c[2], c[3])
    [] c[1] = "wkill" -> WKillCmd(c[2], c[3])
    [] c[1] = "wdrop" -> WDropCmd(c[2])
    [] c[1] = "mnew" -> [Fail(OK) EXCEPT !.mg[c[2]] = [Mgr0 EXCEPT !.a = TRUE]]
    [] c[1] \in {"mdel", "mreset"} -> MReset(c[2], c[1])
    [] c[1] = "mtick" -> MTick(c[2], <<c[3], c[4]>>)
    [] c[1] = "madd" -> MAdd(c[2], c[3], <<c[4], c[5]>>)
    [] c[1] = "mset" -> MSet(c[2], c[3], <<c[4], c[5]>>)
    [] c[1] \in {"mstart", "mresume"} -> MDrive(c[2], c[3], c[4], c[5])
    [] c[1] = "mrem" -> MRem(c[2], c[3], c[4])
    [] c[1] = "mkill" -> MKill(c[2], c[3], c[4], c[5], c[6])
    [] c[1] = "mcancel" -> MCancel(c[2], c[3], c[4], c[5])
Do(c) == s' = Result(c)

Ft(x) == x \in Features
Modes == IF Ft("modes") THEN {0, 1} ELSE {0}
Sts == IF Ft("status") THEN {CANCELED, KILLED, TIMEOUT} ELSE {KILLED}
(* with "hub" everybody follows or awaits task 1 *)
Hubs == IF Ft("hub") THEN {1} ELSE Ids
AllCmds ==
  {<<"cbret">>, <<"wret">>} \cup
       {<<"create", i, k>> : i \in Ids, k \in IF Ft("variants") THEN 0..5 \cup {8, 9} ELSE {0}}
  \cup (IF Ft("then") THEN {<<"then", i, j, k, p>> : i \in Ids, j \in Ids, k \in IF Ft("variants") THEN 0..4 ELSE {0}, p \in Privs} ELSE {})
  \cup {<<"start", i, p, q>> : i \in Ids, p \in Privs, q \in Modes}
  \cup (IF Ft("resume") THEN {<<"resume", i, p, q>> : i \in Ids, p \in Privs, q \in Modes} ELSE {})
  \cup (IF Ft("kill") THEN {<<"kill", i, st, p, q>> : i \in Ids, st \in Sts, p \in Privs, q \in Modes} ELSE {})
  \cup (IF Ft("cancel") THEN {<<"cancel", i, p, q>> : i \in Ids, p \in Privs, q \in Modes} ELSE {})
  \cup (IF Ft("drop") THEN {<<"drop", i>> : i \in Ids} ELSE {})
  \cup (IF Ft("next") THEN {<<"next", i, j, p>> : i \in Hubs, j \in Ids \cup {0}, p \in Privs} ELSE {})
  \cup (IF Ft("await") THEN {<<"await", i, j>> : i \in Ids, j \in Hubs \cup {0}} ELSE {})
  \cup {<<"yield">>} \cup {<<"finish", p>> : p \in Privs}
  \cup (IF Ft("yn") THEN {<<"yn", 3>>} ELSE {}) \cup (IF Ft("ylong") THEN {<<"yn", 200>>} ELSE {})
  \cup (IF Ft("throw") THEN {<<"throw", p>> : p \in Privs} ELSE {})
  \cup (IF NW > 0 THEN {<<"watch", k, i>> : k \in Ws, i \in Hubs} ELSE {})
  \cup (IF NW > 0 /\ Ft("wkill") THEN {<<"wkill", k, st>> : k \in Ws, st \in {4, 6}} \cup {<<"wdrop", k>> : k \in Ws} ELSE {})
  \cup (IF NM = 0 THEN {} ELSE
          {<<"mnew", m>> : m \in Ms}
     \cup {<<"madd", m, i, t[1], t[2]>> : m \in Ms, i \in Ids, t \in TTs(Timeouts)}
     \cup (IF Ft("mdel") THEN {<<"mdel", m>> : m \in Ms} ELSE {})
     \cup (IF Ft("mreset") THEN {<<"mreset", m>> : m \in Ms} ELSE {})
     \cup (IF Ft("mset") THEN {<<"mset", m, i, t[1], t[2]>> : m \in Ms, i \in Ids, t \in TTs(Timeouts)} ELSE {})
     \cup (IF Ft("mtick") THEN {<<"mtick", m, t[1], t[2]>> : m \in Ms, t \in TTs(Ticks)} ELSE {})
     \cup (IF Ft("mrem") THEN {<<"mrem", m, i, c>> : m \in Ms, i \in Ids, c \in 0..2} ELSE {})
     \cup (IF Ft("mop") THEN {<<o, m, i, p, q>> : o \in {"mstart", "mresume", "mcancel"}, m \in Ms, i \in Ids, p \in Privs, q \in Modes}
                        \cup {<<"mkill", m, i, st, p, q>> : m \in Ms, i \in Ids, st \in Sts, p \in Privs, q \in Modes} ELSE {}))
(* hub: all tasks are made first, and the hub is only touched after many follow it *)
Missing == {i \in Ids : s.ts[i] = NONE /\ i \notin s.reap}
Crowded == IF NM = 0 THEN Len(s.nxt[1]) >= 6 \/ Gone(s, 1)
           ELSE (\E m \in Ms : Cardinality(s.mg[m].mem) >= 6) \/ (\E i \in Ids : Ended(s, i))
HubOk(c) == Ft("hub") =>
  IF Missing # {} /\ Top.f = "main" THEN c = <<"create", CHOOSE i \in Missing : \A j \in Missing : i <= j, 0>>
  ELSE /\ (~Crowded => /\ c[1] \in {"start", "resume", "yield", "next", "await", "watch", "cbret", "wret", "mnew", "madd"}
                       /\ (c[1] \in {"start", "resume"} => NM > 0 \/ c[2] # 1)
                       /\ (c[1] = "madd" => c[3] \notin s.mg[c[2]].mem))
       /\ (c[1] = "await" => c[2] = Cur(s) /\ c[3] = 1)
Ok(c) == /\ HubOk(c)
         /\ IF Top.f \in {"cb", "wake"} /\ ~Ft("cb") THEN c = (IF Top.f = "cb" THEN <<"cbret">> ELSE <<"wret">>)
            ELSE /\ Legal(c)
                 /\ (c[1] = "throw" => \A i \in Ids : s.ts[i] # NONE => s.h[i] > 0)
                 /\ (c[1] \notin {"finish", "yield", "yn", "cbret", "wret"} => Len(s.stk) <= MaxDepth)
                 /\ (c[1] \in {"next", "then"} => Len(s.nxt[c[2]]) < MaxNext)
                 /\ (c[1] = "await" /\ c[3] # 0 => Len(s.nxt[c[3]]) < MaxNext)
Cmds == {c \in AllCmds : Ok(c)}

Next == \/ (Quiet /\ \E c \in Cmds : Do(c)) \/ Internal \/ Observe

-----------------------------------------------------------------------------
(* T01: the status says what is really going on *)
OnStack(i) == \E k \in 1..Len(s.stk) : s.stk[k].f = "body" /\ s.stk[k].t = i
StatusReal == \A i \in Ids :
  /\ (s.ts[i] = CREATED => ~s.ent[i])
  /\ (s.ts[i] = WAITING => s.ent[i] /\ ~s.fin[i] /\ s.sus[i] # <<>>)
  /\ (OnStack(i) => s.ts[i] = RUNNING \/ s.ts[i] > DONE)
  /\ Cardinality({k \in 1..Len(s.stk) : s.stk[k].f = "body" /\ s.stk[k].t = i}) <= 1
StatusMoves == [][\A i \in Ids : s.ts[i] # s'.ts[i] =>
   <<s.ts[i], s'.ts[i]>> \in ({NONE} \X {CREATED, RUNNING}) \cup ({CREATED, WAITING} \X {RUNNING}) \cup {<<RUNNING, WAITING>>}
                             \cup ({CREATED, RUNNING, WAITING} \X {DONE, CANCELED, KILLED, TIMEOUT})
                             \cup ({CREATED, DONE, CANCELED, KILLED, TIMEOUT} \X {NONE})]_s
(* T02: the callback runs only after the body ended with a final status *)
CallbackLate == s.pend.op = "onfin" => s.fin[s.pend.rc] /\ Ended(s, s.pend.rc)
FinOnce == \A i \in Ids : Cardinality({fr \in Frames(s) : fr.f = "fin" /\ fr.t = i}) <= 1
(* T03: only followers of unfinished tasks are kept *)
NoLostFollower == \A i \in Ids : s.nxt[i] # <<>> => (~Ended(s, i) \/ \E fr \in Frames(s) : fr.t = i /\ (fr.f = "run" \/ (fr.f = "fin" /\ fr.ph \in {"drive", "cb"})))
(* T04: whoever waits is registered with an unfinished task, or is about to continue *)
WaitersKnown == \A i \in Ids : \A k \in 1..Len(s.sus[i]) : (s.sus[i][k].f = "await" /\ ~Gone(s, s.sus[i][k].p)) =>
                   \E q \in 1..Len(s.nxt[s.sus[i][k].p]) : s.nxt[s.sus[i][k].p][q][1] = s.sus[i][k].t
(* T05/T06: nothing that is finished keeps a body; nothing reclaimed is referenced *)
Reclaimed == \A i \in Ids : s.ts[i] = NONE => ~Referenced(s, i) /\ s.sus[i] = <<>> /\ ~OnStack(i)
Settled == Quiet => \A i \in Ids : (Ended(s, i) /\ ~\E fr \in Frames(s) : fr.f \in {"run", "fin"} /\ fr.t = i)
                         => s.fin[i] /\ s.sus[i] = <<>> /\ s.wl[i] = {} /\ s.nxt[i] = <<>>
(* M01: membership and binding agree, nothing ended and settled is a member *)
BindMatch == \A m \in Ms : \A i \in Ids : (i \in s.mg[m].mem) = (s.bind[i] = m)
TimersOfMembers == \A m \in Ms : \A i \in Ids : s.mg[m].dl[i] # <<>> => i \in s.mg[m].mem
MembersAlive == \A m \in Ms : \A i \in s.mg[m].mem : Ended(s, i) => \E fr \in Frames(s) : fr.t = i /\ fr.f \in {"run", "fin"}
(* M02: a tick never ends a task whose deadline has not passed *)
NeverEarly == [][\A m \in Ms : (Top.f = "op" /\ Top.k = "mtick" /\ Top.m = m) =>
                  \A i \in Ids : (s'.ts[i] = TIMEOUT /\ s.ts[i] # TIMEOUT) => Lt(s.mg[m].dl[i], Top.now)]_s
====
