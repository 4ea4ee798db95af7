---- MODULE IdMT ----
(* Identifiers drawn by several threads (U01): whatever the clock does, no identifier is zero and none comes twice. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS T, Near, Features
Thr == 0..T
VARIABLES used, th
vars == <<used, th>>
Init == used = {"0"} /\ th = [t \in Thr |-> 0]
Call(c) == LET t == c[2] IN th[t] = 0 /\ th' = [th EXCEPT ![t] = c[3]] /\ UNCHANGED used
Range(v) == {v[k] : k \in DOMAIN v}
\* e.old: how many of them had been drawn before the program began
Obs(e) == /\ e.old = 0
          /\ th[e.t] = Len(e.v) /\ Len(e.v) > 0
          /\ Cardinality(Range(e.v)) = Len(e.v) /\ Range(e.v) \cap used = {}
          /\ used' = used \cup Range(e.v) /\ th' = [th EXCEPT ![e.t] = 0]
Internal == FALSE /\ UNCHANGED vars
-----------------------------------------------------------------------------
F(f) == f \in Features
Menu(t, h) ==
  {<<"draw", n>> : n \in IF t = 0 THEN (IF F("pre") THEN {1, 31, 32} ELSE {}) ELSE {1, 31, 33, 65}}
  \cup (IF F("tick") THEN {<<"tick", n>> : n \in {1, 2}} ELSE {})
  \cup (IF F("task") THEN {<<"task", 1>>} ELSE {})
====
