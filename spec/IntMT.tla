---- MODULE IntMT ----
(* One atomic integer used by several threads (U05).  A call is logged when it starts, takes effect at one moment between its
   start and its end, and its end is logged with what it returned.  pub publishes a plain value y with x, see reads y if it
   saw that. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS T, Features
Thr == 1..T
VARIABLES x, y, th
vars == <<x, y, th>>
Idle == [st |-> "idle"]
Init == x = 0 /\ y = 0 /\ th = [t \in Thr |-> Idle]
Call(c) == LET t == c[2] IN
  /\ th[t].st = "idle" /\ th' = [th EXCEPT ![t] = [st |-> "call", op |-> c[1], a |-> c[3], d |-> c[4]]] /\ UNCHANGED <<x, y>>
Done(t, rc) == th' = [th EXCEPT ![t] = [st |-> "done", rc |-> rc]]
Has(v, b) == (v \div b) % 2 = 1
Set(v, b, on) == IF Has(v, b) = on THEN v ELSE IF on THEN v + b ELSE v - b
Lin(t) == LET op == th[t].op a == th[t].a d == th[t].d IN
  CASE op = "add" -> x' = x + a /\ Done(t, x) /\ UNCHANGED y
    [] op = "sub" -> x' = x - a /\ Done(t, x) /\ UNCHANGED y
    [] op = "ppre" -> x' = x + 1 /\ Done(t, x + 1) /\ UNCHANGED y
    [] op = "ppost" -> x' = x + 1 /\ Done(t, x) /\ UNCHANGED y
    [] op = "mpre" -> x' = x - 1 /\ Done(t, x - 1) /\ UNCHANGED y
    [] op = "mpost" -> x' = x - 1 /\ Done(t, x) /\ UNCHANGED y
    \* a is one bit here
    [] op = "or" -> x' = Set(x, a, TRUE) /\ Done(t, x) /\ UNCHANGED y
    [] op = "clr" -> x' = Set(x, a, FALSE) /\ Done(t, x) /\ UNCHANGED y
    [] op = "xor" -> x' = Set(x, a, ~Has(x, a)) /\ Done(t, x) /\ UNCHANGED y
    [] op = "exch" -> x' = a /\ Done(t, x) /\ UNCHANGED y
    [] op \in {"st", "ass"} -> x' = a /\ Done(t, 0) /\ UNCHANGED y
    [] op \in {"ld", "conv"} -> Done(t, x) /\ UNCHANGED <<x, y>>
    \* success: 100, otherwise what was there
    [] op = "cass" -> IF x = a THEN x' = d /\ Done(t, 100) /\ UNCHANGED y ELSE Done(t, x) /\ UNCHANGED <<x, y>>
    [] op = "casw" -> \/ (x = a /\ x' = d /\ Done(t, 100) /\ UNCHANGED y)
                      \/ (Done(t, x) /\ UNCHANGED <<x, y>>)
    [] op = "pub" -> x' = 1 /\ y' = 7 /\ Done(t, 0)
    [] op = "see" -> Done(t, IF x = 1 THEN y ELSE 0) /\ UNCHANGED <<x, y>>
Internal == \E t \in Thr : th[t].st = "call" /\ Lin(t)
Obs(e) ==
  IF e.op = "end" THEN (\A t \in Thr : th[t].st = "idle") /\ e.x = x /\ UNCHANGED vars
  ELSE th[e.t].st = "done" /\ th[e.t].rc = e.rc /\ th' = [th EXCEPT ![e.t] = Idle] /\ UNCHANGED <<x, y>>
-----------------------------------------------------------------------------
F(f) == f \in Features
Cnt(h, ops) == Cardinality({i \in DOMAIN h : h[i][1] \in ops})
Ops == (IF F("sum") THEN {<<"add", 2, 0>>, <<"sub", 3, 0>>, <<"ppre", 0, 0>>, <<"ppost", 0, 0>>, <<"mpre", 0, 0>>, <<"mpost", 0, 0>>, <<"ld", 0, 0>>} ELSE {})
  \cup (IF F("bits") THEN {<<"or", 1, 0>>, <<"or", 2, 0>>, <<"clr", 1, 0>>, <<"xor", 1, 0>>, <<"xor", 2, 0>>, <<"conv", 0, 0>>} ELSE {})
  \cup (IF F("swap") THEN {<<"exch", 1, 0>>, <<"exch", 2, 0>>, <<"st", 3, 0>>, <<"ass", 4, 0>>, <<"cass", 0, 5>>, <<"cass", 1, 6>>, <<"casw", 0, 7>>, <<"casw", 2, 8>>} ELSE {})
\* the last argument is how it is done
Menu(t, h) == IF t = 0 THEN {} ELSE
  {<<o[1], o[2], o[3], k>> : o \in Ops, k \in {0, 1}}
  \cup (IF F("msg") THEN IF t = 1 THEN IF h = <<>> THEN {<<"pub", k, 0, v>> : k \in 0..7, v \in {0, 1}} ELSE {}
                         ELSE {<<"see", k, 0, v>> : k \in 0..6, v \in {0, 1}} ELSE {})
-----------------------------------------------------------------------------
Next == Internal
        \/ (\E t \in Thr, o \in Ops : x \in (0 - 4)..8 /\ Call(<<o[1], t, o[2], o[3]>>))
        \/ (F("msg") /\ \E t \in Thr : Call(<<IF t = 1 THEN "pub" ELSE "see", t, 0, 0>>))
        \/ (\E t \in Thr : th[t].st = "done" /\ Obs([op |-> "ret", t |-> t, rc |-> th[t].rc]))
Published == F("msg") => (x = 1 <=> y = 7)
====
