---- MODULE CtxMT ----
(* Coroutine contexts shared by several threads (C01-C04).  A call is logged when it starts and when it returns and takes effect at one
   moment in between; a start that is admitted drives the coroutine on the calling thread until the body leaves (yield, return, throw)
   and gives it up at one moment after that.  Every thread is a stack of frames, because a body may start another coroutine. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS T, N, Features
Thr == 0..T
Ids == 1..N
VARIABLES st,    \* "none", "inv", "ing" a runner is being set, "ready", "run", "fin"
          pn,     \* pieces of the body that have begun
          cfg,   \* cfg[i] = <<yields, end, nested, flag>>: end 0 return, 1 throw; the first piece starts coroutine `nested`
          hold,  \* hold[i]: threads with a reference
          th
vars == <<st, pn, cfg, hold, th>>
OK == 0
NOT_INITED == -1001
ALREADY_INITED == -1002
NOT_READY == -1004
IS_RUNNING == -1006
Init == /\ st = [i \in Ids |-> "none"] /\ pn = [i \in Ids |-> 0] /\ cfg = [i \in Ids |-> <<0, 0, 0>>] /\ hold = [i \in Ids |-> {}]
        /\ th = [t \in Thr |-> <<>>]
Top(t) == th[t][Len(th[t])]
SetTop(t, f) == th' = [th EXCEPT ![t] = Append(SubSeq(@, 1, Len(@) - 1), f)]
Is(t, s) == th[t] # <<>> /\ Top(t).st = s
(* the coroutine whose code the thread executes *)
RECURSIVE CurIn(_)
CurIn(s) == IF s = <<>> THEN 0 ELSE IF s[Len(s)].st = "in" THEN s[Len(s)].a ELSE CurIn(SubSeq(s, 1, Len(s) - 1))

Call(c) == LET t == c[2] IN
  IF c[1] = "create"
  THEN /\ t = 0 /\ st[c[3]] = "none" /\ st' = [st EXCEPT ![c[3]] = IF c[4] = 1 THEN "ready" ELSE "inv"]
       /\ cfg' = [cfg EXCEPT ![c[3]] = <<c[5], c[6], c[7]>>] /\ hold' = [hold EXCEPT ![c[3]] = Thr] /\ UNCHANGED pn
       /\ th' = [th EXCEPT ![0] = <<[st |-> "done", rc |-> 1, x |-> 0]>>]
  ELSE /\ (IF th[t] = <<>> THEN TRUE ELSE Top(t).st = "in")
       /\ (IF c[1] = "drop" THEN c[4] \in hold[c[3]] ELSE t \in hold[c[3]])
       /\ th' = [th EXCEPT ![t] = Append(@, [st |-> "call", op |-> c[1], a |-> c[3], u |-> c[4]])]
       /\ UNCHANGED <<st, pn, cfg, hold>>

Done(t, rc, x) == SetTop(t, [st |-> "done", rc |-> rc, x |-> x])
Same == UNCHANGED <<st, pn, cfg, hold>>
Lin(t) == LET f == Top(t) i == f.a IN
  CASE f.op = "start" ->
         (CASE st[i] \in {"inv", "ing"} -> Same /\ Done(t, NOT_INITED, 0)
            [] st[i] = "run" -> Same /\ Done(t, IS_RUNNING, 0)
            [] st[i] = "fin" -> Same /\ Done(t, NOT_READY, 0)
            [] OTHER -> /\ st' = [st EXCEPT ![i] = "run"] /\ UNCHANGED <<pn, cfg, hold>>
                        /\ SetTop(t, [st |-> "drive", a |-> i]))
    [] f.op = "setrun" ->
         (IF st[i] = "inv" THEN st' = [st EXCEPT ![i] = "ing"] /\ UNCHANGED <<pn, cfg, hold>> /\ SetTop(t, [st |-> "set", a |-> i])
          ELSE Same /\ Done(t, ALREADY_INITED, 0))
    [] f.op = "fin" -> Same /\ Done(t, IF st[i] = "fin" THEN 1 ELSE 0, 0)
    \* the return code, if it is final
    [] f.op = "code" -> Same /\ Done(t, IF st[i] # "fin" THEN 0 - 2 ELSE IF cfg[i][2] = 1 THEN 0 ELSE 40 + i, 0)
    [] f.op = "drop" -> /\ hold' = [hold EXCEPT ![i] = @ \ {f.u}] /\ UNCHANGED <<pn, cfg>>
                        /\ IF hold[i] = {f.u} THEN st' = [st EXCEPT ![i] = "none"] /\ SetTop(t, [st |-> "free", a |-> i])
                           ELSE UNCHANGED st /\ Done(t, 0, 0)
Release(t) == LET i == Top(t).a IN
  /\ st' = [st EXCEPT ![i] = IF Top(t).how = 0 THEN "ready" ELSE "fin"] /\ UNCHANGED <<pn, cfg, hold>>
  /\ Done(t, OK, IF Top(t).how = 2 THEN i ELSE 0)
Set(t) == st' = [st EXCEPT ![Top(t).a] = "ready"] /\ UNCHANGED <<pn, cfg, hold>> /\ Done(t, OK, 0)
Internal == \E t \in Thr : (Is(t, "call") /\ Lin(t)) \/ (Is(t, "set") /\ Set(t)) \/ (Is(t, "out") /\ Release(t))

How(i) == IF pn[i] <= cfg[i][1] THEN 0 ELSE 1 + cfg[i][2]
Obs(e) ==
  CASE e.op = "run" ->   \* a piece of the body begins: the value is the one given by the thread that drives
         /\ Is(e.t, "drive") /\ Top(e.t).a = e.i /\ e.k = pn[e.i] + 1 /\ e.v = e.t /\ e.cur = e.i
         /\ pn' = [pn EXCEPT ![e.i] = @ + 1] /\ SetTop(e.t, [st |-> "in", a |-> e.i]) /\ UNCHANGED <<st, cfg, hold>>
    [] e.op = "leave" -> \* and ends
         /\ Is(e.t, "in") /\ Top(e.t).a = e.i /\ e.how = How(e.i) /\ SetTop(e.t, [st |-> "out", a |-> e.i, how |-> e.how]) /\ Same
    [] e.op = "of" ->    \* the stack goes back
         /\ Is(e.t, "free") /\ Top(e.t).a = e.i /\ Done(e.t, 0, 0) /\ Same
    [] e.op = "ret" ->
         /\ Is(e.t, "done") /\ e.rc = Top(e.t).rc /\ e.x = Top(e.t).x /\ e.cur = CurIn(th[e.t])
         /\ th' = [th EXCEPT ![e.t] = SubSeq(@, 1, Len(@) - 1)] /\ Same
    [] e.op = "end" -> (\A t \in Thr : th[t] = <<>>) /\ (\A i \in Ids : hold[i] = {}) /\ e.stacks = 0 /\ e.fns = 0 /\ UNCHANGED vars
    [] OTHER -> FALSE
-----------------------------------------------------------------------------
F(f) == f \in Features
Menu(t, h) ==
  IF t = 0 THEN
    (IF Len(h) < N THEN {<<"create", Len(h) + 1, r, y, e, nx>> : r \in (IF F("runner") THEN {0, 1} ELSE {1}), y \in (IF F("two") THEN {1, 2} ELSE {1}),
                          e \in (IF F("throw") THEN {0, 1} ELSE {0}), nx \in (IF F("nest") THEN 0..N ELSE {0}) \ {Len(h) + 1}}
     ELSE IF F("drop") THEN {<<"drop", i>> : i \in Ids} ELSE {})
  ELSE {<<"start", i>> : i \in Ids}
       \cup (IF F("fin") THEN {<<"fin", i>> : i \in Ids} \cup {<<"code", i>> : i \in Ids} ELSE {})
       \cup (IF F("runner") THEN {<<"setrun", i>> : i \in Ids} ELSE {})
       \cup (IF F("drop") THEN {<<"drop", i>> : i \in Ids} ELSE {})
-----------------------------------------------------------------------------
(* design: any interleaving *)
Ops(t) == IF t = 0 THEN {<<"create", 0, i, r, 1, e, nx>> : i \in Ids, r \in (IF F("runner") THEN {0, 1} ELSE {1}), e \in (IF F("throw") THEN {0, 1} ELSE {0}),
                                                     nx \in (IF F("nest") THEN 0..N ELSE {0})}
          ELSE {<<o, t, i, t>> : o \in {"start"} \cup (IF F("fin") THEN {"fin"} ELSE {}) \cup (IF F("runner") THEN {"setrun"} ELSE {})
                                       \cup (IF F("drop") THEN {"drop"} ELSE {}), i \in Ids}
Next == \/ Internal
        \/ \E c \in Ops(0) : c[7] # c[3] /\ pn[c[3]] = 0 /\ (\A i \in 1..(c[3] - 1) : st[i] # "none") /\ th = [t \in Thr |-> <<>>] /\ hold[c[3]] = {} /\ Call(c)
        \/ \E t \in Thr \ {0} : \E c \in Ops(t) :
             /\ (\A i \in Ids : cfg[i] # <<0, 0, 0>>) /\ (IF th[t] = <<>> THEN TRUE ELSE Top(t).st = "in" /\ pn[Top(t).a] = 1 /\ c[1] = "start" /\ c[3] = cfg[Top(t).a][3] /\ Len(th[t]) < N + 1)
             /\ Call(c)
        \/ (Is(0, "done") /\ Obs([op |-> "ret", t |-> 0, rc |-> 1, x |-> 0, cur |-> 0]))
        \/ \E t \in Thr \ {0} : \/ (Is(t, "drive") /\ Obs([op |-> "run", t |-> t, i |-> Top(t).a, k |-> pn[Top(t).a] + 1, v |-> t, cur |-> Top(t).a]))
                                \/ (Is(t, "in") /\ Obs([op |-> "leave", t |-> t, i |-> Top(t).a, how |-> How(Top(t).a)]))
                                \/ (Is(t, "free") /\ Obs([op |-> "of", t |-> t, i |-> Top(t).a]))
                                \/ (Is(t, "done") /\ Obs([op |-> "ret", t |-> t, rc |-> Top(t).rc, x |-> Top(t).x, cur |-> CurIn(th[t])]))
Drivers(i) == {x \in Thr \X (1..(N + 1)) : x[2] <= Len(th[x[1]]) /\ th[x[1]][x[2]].st \in {"drive", "in", "out"} /\ th[x[1]][x[2]].a = i}
(* only while exactly one resumer drives it *)
OneDriver == \A i \in Ids : Cardinality(Drivers(i)) = (IF st[i] = "run" THEN 1 ELSE 0)
Pieces == \A i \in Ids : pn[i] <= cfg[i][1] + 1
GoneAtLast == \A i \in Ids : st[i] = "none" <=> hold[i] = {}
FinalSticky == [][\A i \in Ids : st[i] = "fin" => st'[i] \in {"fin", "none"}]_vars
====
