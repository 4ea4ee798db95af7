---- MODULE LockMT ----
(* Spin lock and lock guards used by several threads (U02).
   A call is logged when it starts, takes effect at one moment between its start and its end, and its end is logged too. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS T, Features
Thr == 1..T
VARIABLES locked, th, own, x
vars == <<locked, th, own, x>>
Idle == [st |-> "idle"]
Init == locked = 0 /\ th = [t \in Thr |-> Idle] /\ own = [t \in Thr |-> 0] /\ x = 0
Call(c) == LET t == c[2] IN
  /\ th[t].st = "idle" /\ th' = [th EXCEPT ![t] = [st |-> "call", op |-> c[1]]]
  /\ (c[1] \in {"unlock", "inc"} => own[t] = 1)
  /\ UNCHANGED <<locked, own, x>>
Done(t, rc) == th' = [th EXCEPT ![t] = [st |-> "done", rc |-> rc]]
Lin(t) == LET op == th[t].op IN
  CASE op = "lock" -> locked = 0 /\ locked' = 1 /\ own' = [own EXCEPT ![t] = 1] /\ Done(t, 0) /\ UNCHANGED x
    [] op = "try" -> locked' = 1 /\ own' = [own EXCEPT ![t] = IF locked = 0 THEN 1 ELSE @] /\ Done(t, 1 - locked) /\ UNCHANGED x
    [] op = "unlock" -> locked' = 0 /\ own' = [own EXCEPT ![t] = 0] /\ Done(t, 0) /\ UNCHANGED x
    [] op = "tryun" -> locked' = 0 /\ own' = [own EXCEPT ![t] = 0] /\ Done(t, locked) /\ UNCHANGED x
    [] op = "is" -> Done(t, locked) /\ UNCHANGED <<locked, own, x>>
    [] op = "inc" -> x' = x + 1 /\ Done(t, x + 1) /\ UNCHANGED <<locked, own>>
Internal == \E t \in Thr : th[t].st = "call" /\ Lin(t)
Obs(e) ==
  IF e.op = "end" THEN (\A t \in Thr : th[t].st = "idle") /\ e.x = x /\ e.locked = locked /\ UNCHANGED vars
  ELSE th[e.t].st = "done" /\ th[e.t].rc = e.rc /\ th' = [th EXCEPT ![e.t] = Idle] /\ UNCHANGED <<locked, own, x>>
-----------------------------------------------------------------------------
(* programs: what thread t (0: before the threads start) may be asked to do after having been asked h *)
F(f) == f \in Features
Cnt(h, ops) == Cardinality({i \in DOMAIN h : h[i][1] \in ops})
Holds(h) == Cnt(h, {"lock", "try"}) > Cnt(h, {"unlock", "tryun"})
Menu(t, h) == IF t = 0 THEN {} ELSE
  {<<o>> : o \in {"try", "is"}}
  \cup (IF F("tryun") THEN {<<"tryun">>} ELSE {})
  \* a thread that holds the lock would wait for itself
  \cup (IF Holds(h) THEN {<<"unlock">>, <<"inc">>} ELSE {<<"lock">>} \cup IF F("guard") THEN {<<"crit">>, <<"gtry">>} ELSE {})
-----------------------------------------------------------------------------
Next == Internal \/ (\E t \in Thr, o \in {"lock", "try", "unlock", "is", "inc"} \cup (IF F("tryun") THEN {"tryun"} ELSE {}) :
                      (o = "lock" => own[t] = 0) /\ x < 3 /\ Call(<<o, t>>))
        \/ (\E t \in Thr : th[t].st = "done" /\ Obs([op |-> "ret", t |-> t, rc |-> th[t].rc]))
OneOwner == F("tryun") \/ Cardinality({t \in Thr : own[t] = 1}) <= 1
OwnerHolds == F("tryun") \/ ((\E t \in Thr : own[t] = 1) <=> locked = 1)
====
