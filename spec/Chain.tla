---- MODULE Chain ----
(* Continuations of every shape and private data of C++20 tasks (P09).
   Node i is a task with a body of its own ("base") or the result of then() on node par[i].  Types: ty 0 int, 1 void;
   hk: how it is held: "c" callable, "p" task with private data, "t" task without.  A continuation's functor returns rt:
   0 a value, 1 nothing, 2/3 a callable (int/void), 4 a task of int without private data, 5 a task of void with private data.
   A base task leaves its private data to the default (made 0) or has it constructed from its coroutine arguments (made 1).
   Continuations and functors' coroutines run as soon as what they wait for is over.
   A killed task (sx) goes on at once and never waits again: its functor gets the error value of what it waited for, and
   the coroutine its functor returned runs to its end before it is let go. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Vals, Features, MaxDepth
Ft(x) == x \in Features
Ids == 1..N
KILLED == 5
VARIABLE s
vars == s
NoObs == [op |-> "none", rc |-> 0, x |-> 0, y |-> 0]
Obs(op, rc, x, y) == [op |-> op, rc |-> rc, x |-> x, y |-> y]
F(f, t) == [f |-> f, t |-> t, R |-> {}]
User == {"main", "body", "fn", "in"}
(* st: 0 none, 1 not started, 2 running, 3 at its gate, 4 waiting for its parent, 5 over *)
Node0 == [st |-> 0, ty |-> 0, hk |-> "-", rt |-> 0, par |-> 0, pd |-> 0, v |-> 0, vis |-> FALSE, sx |-> 0]
Init == s = [n |-> [i \in Ids |-> Node0], stk |-> <<F("main", 0)>>, pend |-> NoObs]
TopOf(st) == st.stk[Len(st.stk)]
Top == TopOf(s)
Push(st, fr) == [st EXCEPT !.stk = Append(@, fr)]
Pop(st) == [st EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
SetTop(st, fr) == [st EXCEPT !.stk[Len(st.stk)] = fr]
Say(st, o) == [st EXCEPT !.pend = o]
Ret(st, rc, x) == Say(st, Obs("ret", rc, x, 0))
B(b) == IF b THEN 1 ELSE 0
Quiet == s.pend.op = "none" /\ Top.f \in User
Ex(st, i) == st.n[i].st # 0
Task(st, i) == st.n[i].hk \in {"p", "t"}
(* what keeps a node alive: its future, and the continuations made from it *)
RECURSIVE Sweep(_)
Held(st, i) == st.n[i].vis \/ \E j \in Ids : Ex(st, j) /\ st.n[j].par = i
Sweep(st) == LET dead == {i \in Ids : Ex(st, i) /\ ~Held(st, i) /\ ~(\E k \in 1..Len(st.stk) : st.stk[k].f = "then" /\ st.stk[k].t = i)} IN
             IF dead = {} THEN st ELSE Sweep([st EXCEPT !.n = [i \in Ids |-> IF i \in dead THEN Node0 ELSE @[i]]])
Val(st, i) == IF st.n[i].ty = 1 THEN 0 ELSE st.n[i].v
Pd(st, i) == IF st.n[i].hk = "p" THEN st.n[i].pd ELSE 0 - 1
(* frame of node i is on top and gone with this *)
Finish(st, i, v) == Push([st EXCEPT !.n[i].st = 5, !.n[i].v = IF st.n[i].ty = 1 THEN 0 ELSE v],
                         [F("fin", i) EXCEPT !.R = {j \in Ids : st.n[j].par = i /\ st.n[j].st = 4}])
Call(st, j) == LET p == st.n[j].par IN
  Say(Push([st EXCEPT !.n[j].st = 2], F("fn", j)),
      Obs("fn", j + 10 * B(st.n[p].st = 5), IF st.n[p].st = 5 \/ st.n[p].ty = 1 THEN Val(st, p) ELSE 0 - KILLED, Pd(st, p)))
StepFin(fr) == LET R == {j \in fr.R : s.n[j].st = 4} IN
  IF R = {} THEN {Pop(s)} ELSE {Call(SetTop(s, [fr EXCEPT !.R = R \ {j}]), j) : j \in (IF Ft("lenient") THEN R ELSE {CHOOSE i \in R : \A k \in R : i <= k})}
Internals ==
  CASE Top.f = "fin" -> StepFin(Top)
    [] Top.f = "call" -> {Ret(Pop(s), Top.t, 0)}
    [] Top.f = "then" -> {Ret([Pop(s) EXCEPT !.n[Top.t].vis = TRUE], 0, 0)}
    [] Top.f = "aw" -> {Pop(s)}     \* the functor's coroutine is not over yet
    [] OTHER -> {}
Internal == s.pend.op = "none" /\ \E x \in Internals : s' = x
(* what a user sees *)
Live(st, i) == Ex(st, i)
View == [n |-> [i \in Ids |-> LET x == s.n[i] IN
                  IF ~x.vis THEN <<0>>
                  ELSE IF x.hk = "c" THEN <<1, B(x.st = 5)>>
                  ELSE <<2, B(x.st = 5), IF x.sx # 0 THEN x.sx ELSE IF x.st = 5 THEN 3 ELSE IF x.st = 1 THEN 1 ELSE 2, Pd(s, i), IF x.st = 5 THEN x.v ELSE 0>>],
         cnt |-> IF Len(s.stk) > 1 THEN <<>> ELSE
                   <<Cardinality({i \in Ids : s.n[i].hk = "p"}) + Cardinality({i \in Ids : s.n[i].st = 3 /\ s.n[i].rt = 5}),
                     Cardinality({i \in Ids : s.n[i].par # 0}),
                     Cardinality({i \in Ids : s.n[i].hk # "-" /\ s.n[i].par = 0}),
                     Cardinality({i \in Ids : s.n[i].st = 3 /\ s.n[i].par # 0})>>]
Full(q) == [op |-> q.op, rc |-> q.rc, x |-> q.x, y |-> q.y, wf |-> Top.f, wt |-> Top.t, bad |-> 0, s |-> View]
Pending(e) == s.pend.op # "none" /\ Top.f \in User /\ e = Full(s.pend)
Observe == s.pend.op # "none" /\ s' = [s EXCEPT !.pend = NoObs]
-----------------------------------------------------------------------------
InCo == Top.f \in {"body", "in"}
Depth == Cardinality({k \in 1..Len(s.stk) : s.stk[k].f \in User})
Legal(c) ==
  CASE c[1] = "new" -> ~Ex(s, c[2])
    [] c[1] = "start" -> s.n[c[2]].vis /\ s.n[c[2]].st = 1
    [] c[1] = "then" -> s.n[c[2]].vis /\ Task(s, c[2]) /\ ~Ex(s, c[3])
    [] c[1] = "go" -> s.n[c[2]].st = 3
    [] c[1] = "drop" -> s.n[c[2]].vis /\ Top.f = "main" /\ (s.n[c[2]].st = 5 \/ \E j \in Ids : s.n[j].par = c[2])
                        /\ LET s1 == Sweep([s EXCEPT !.n[c[2]].vis = FALSE]) IN \A i \in Ids : s.n[i].st \in {0, 5} \/ Ex(s1, i)
    [] c[1] = "kill" -> LET x == s.n[c[2]] IN x.vis /\ Task(s, c[2]) /\ x.st > 1
                        /\ (x.st = 3 /\ x.sx = 0 => x.rt \notin {2, 4})
                        /\ (x.st = 2 => x.par = 0 \/ \E k \in 1..Len(s.stk) : s.stk[k].f \in {"fn", "aw"} /\ s.stk[k].t = c[2])
    [] c[1] = "pset" -> s.n[c[2]].vis /\ s.n[c[2]].hk = "p"
    [] c[1] = "cget" -> s.n[c[2]].vis /\ s.n[c[2]].st = 5
    [] c[1] \in {"mset", "mget"} -> Top.f = "body" /\ s.n[Top.t].hk = "p"
    [] c[1] = "mid" -> Top.f = "body"
    [] c[1] = "ret" -> InCo
    [] c[1] = "ys" -> InCo /\ ~(Top.f = "in" /\ s.n[Top.t].sx # 0 /\ s.n[Top.t].rt \in {2, 4})
    [] c[1] = "fret" -> Top.f = "fn"
    [] OTHER -> FALSE
Kinds == <<"c", "p", "t">>
Then(i, j, h, rt, v) ==
  LET k == Kinds[h + 1]
      s1 == Push([s EXCEPT !.n[j] = [Node0 EXCEPT !.st = 4, !.ty = IF rt \in {1, 3, 5} THEN 1 ELSE 0, !.hk = k, !.rt = rt, !.par = i,
                                            !.pd = IF k = "p" THEN v ELSE 0]], F("then", j)) IN
  IF s.n[i].st = 5 \/ s.n[i].sx # 0 THEN Call(s1, j) ELSE s1
Kill(i) ==
  LET x == s.n[i]  s1 == [s EXCEPT !.n[i].sx = KILLED]  s2 == Push(s1, F("call", 1)) IN
  IF x.st = 5 \/ x.sx # 0 THEN Ret(s, 0, 0)
  ELSE IF x.st = 2 THEN Ret(s1, 1, 0)
  ELSE IF x.st = 4 THEN Call(s2, i)
  ELSE IF x.par = 0 THEN Say(Push([s2 EXCEPT !.n[i].st = 2], F("body", i)), Obs("cont", i, 0, 0))
  ELSE Say(Push(Push([s2 EXCEPT !.n[i].st = 2], F("aw", i)), F("in", i)), Obs("cont", i, 0, 0))
Yield == IF Top.f = "in" /\ s.n[Top.t].sx # 0 THEN Say(s, Obs("cont", Top.t, 0, 0)) ELSE Pop([s EXCEPT !.n[Top.t].st = 3])
(* the functor is over: its result, or the coroutine it returns, decides *)
FnRet(v) == LET j == Top.t IN
  IF s.n[j].rt \in {0, 1} THEN Finish(Pop(s), j, v)
  ELSE Say(Push(SetTop(s, F("aw", j)), F("in", j)), Obs("in", j, 0, 0))
Return(v) == LET i == Top.t  s1 == Pop(s) IN
  Finish(IF Top.f = "in" /\ TopOf(s1) = F("aw", i) THEN Pop(s1) ELSE s1, i, v)
Result(c) ==
  CASE c[1] = "new" -> Ret([s EXCEPT !.n[c[2]] = [Node0 EXCEPT !.st = 1, !.ty = c[3], !.hk = "p", !.pd = IF c[4] = 1 THEN c[5] ELSE 0, !.vis = TRUE]], 0, 0)
    [] c[1] = "start" -> Say(Push(Push([s EXCEPT !.n[c[2]].st = 2], F("call", 1)), F("body", c[2])), Obs("enter", c[2], 0, 0))
    [] c[1] = "then" -> Then(c[2], c[3], c[4], c[5], c[6])
    [] c[1] = "go" -> Say(Push(Push([s EXCEPT !.n[c[2]].st = 2], F("call", 0)), F(IF s.n[c[2]].par = 0 THEN "body" ELSE "in", c[2])), Obs("cont", c[2], 0, 0))
    [] c[1] = "drop" -> Ret(Sweep([s EXCEPT !.n[c[2]].vis = FALSE]), 0, 0)
    [] c[1] = "pset" -> Ret([s EXCEPT !.n[c[2]].pd = c[3]], 0, 0)
    [] c[1] = "cget" -> Ret(s, 1, Val(s, c[2]))
    [] c[1] = "mset" -> Ret([s EXCEPT !.n[Top.t].pd = c[2]], 0, 0)
    [] c[1] = "mget" -> Ret(s, 0, s.n[Top.t].pd)
    [] c[1] = "mid" -> Ret(s, 1, 0)
    [] c[1] = "ys" -> Yield
    [] c[1] = "kill" -> Kill(c[2])
    [] c[1] = "ret" -> Return(c[2])
    [] c[1] = "fret" -> FnRet(c[2])
Do(c) == s' = Result(c)
Rts == IF Ft("allrt") THEN 0..5 ELSE {0, 1} \cup (IF Ft("callrt") THEN {2, 3} ELSE {}) \cup (IF Ft("taskrt") THEN {4, 5} ELSE {})
Hks == IF Ft("allhk") THEN 0..2 ELSE {0, 1}
AllCmds ==
  {<<"new", i, ty, a, v>> : i \in Ids, ty \in {0, 1}, a \in {0, 1}, v \in Vals}
  \cup {<<"start", i>> : i \in Ids} \cup {<<o, v>> : o \in {"ret", "fret"}, v \in Vals}
  \cup {<<"then", i, j, h, rt, v>> : i \in Ids, j \in Ids, h \in Hks, rt \in Rts, v \in Vals}
  \cup (IF Ft("gate") THEN {<<"ys">>} \cup {<<"go", i>> : i \in Ids} ELSE {})
  \cup (IF Ft("drop") THEN {<<"drop", i>> : i \in Ids} ELSE {})
  \cup (IF Ft("pd") THEN {<<"pset", i, v>> : i \in Ids, v \in Vals} \cup {<<"mset", v>> : v \in Vals} \cup {<<"mget">>, <<"mid">>} ELSE {})
  \cup (IF Ft("kill") THEN {<<"kill", i>> : i \in Ids} ELSE {})
  \cup (IF Ft("cget") THEN {<<"cget", i>> : i \in Ids} ELSE {})
Lo == CHOOSE v \in Vals : \A w \in Vals : v <= w
Ok(c) == /\ Legal(c)
         /\ (c[1] = "new" => (\A i \in Ids : i < c[2] => Ex(s, i)) /\ (c[4] = 0 => c[5] = Lo))
         /\ (c[1] = "then" => (\A i \in Ids : i < c[3] => Ex(s, i)) /\ (c[4] # 1 => c[6] = Lo))
         /\ (c[1] = "new" => \E i \in Ids : ~Ex(s, i) /\ i # c[2])
         /\ (c[1] \in {"start", "then", "go", "kill"} => Depth <= MaxDepth)
         /\ (c[1] \in {"ret", "fret"} => c[2] = Lo \/ (s.n[Top.t].ty = 0 /\ ~(c[1] = "fret" /\ s.n[Top.t].rt > 1)))
Cmds == {c \in AllCmds : Ok(c)}
Next == \/ (Quiet /\ \E c \in Cmds : Do(c)) \/ Internal \/ Observe
-----------------------------------------------------------------------------
(* nobody waits for something that is over *)
NoIdleWaiter == Quiet => \A j \in Ids : s.n[j].st = 4 => s.n[s.n[j].par].st # 5 \/ \E k \in 1..Len(s.stk) : s.stk[k].f = "fin" /\ j \in s.stk[k].R
ParentLives == \A j \in Ids : s.n[j].par # 0 => Ex(s, s.n[j].par)
(* a continuation is called only after its parent's end, with the parent's result *)
CalledInOrder == \A k \in 1..Len(s.stk) : s.stk[k].f = "fn" => LET x == s.n[s.stk[k].t] IN s.n[x.par].st = 5 \/ s.n[x.par].sx # 0 \/ x.sx # 0
(* private data changes only when somebody sets it *)
OneFrame == \A i \in Ids : Cardinality({k \in 1..Len(s.stk) : s.stk[k].f \in {"body", "fn", "in"} /\ s.stk[k].t = i}) <= 1
OverStaysOver == [][\A i \in Ids : s.n[i].st = 5 => s'.n[i] = [s.n[i] EXCEPT !.pd = s'.n[i].pd, !.vis = s'.n[i].vis] \/ s'.n[i].st = 0]_s
====
