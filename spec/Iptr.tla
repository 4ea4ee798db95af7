---- MODULE Iptr ----
(* Intrusive pointers (U03).  Objects 1..NO (all of a class derived from a counted base), pointers 1..P: the first PB hold
   the base type, the others the derived type; every object also contains a pointer of the base type (`nxt`).
   Raw references that were detached are kept in `raw`. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NO, P, PB, Features
Objs == 1..NO
Ptrs == 1..P
IsB(p) == p <= PB
NoObs == [op |-> "none"]
VARIABLES alive, ptr, nxt, raw, pend
vars == <<alive, ptr, nxt, raw, pend>>
Internal == FALSE /\ UNCHANGED vars
Quiet == pend.op = "none"
Init == /\ alive = [o \in Objs |-> 0] /\ ptr = [p \in Ptrs |-> 0 - 1] /\ nxt = [o \in Objs |-> 0] /\ raw = [o \in Objs |-> 0] /\ pend = NoObs
(* ptr[p]: -1 no pointer object, 0 null, o *)
Cnt(pt, nx, rw, al, o) == Cardinality({p \in Ptrs : pt[p] = o}) + Cardinality({x \in Objs : al[x] = 1 /\ nx[x] = o}) + rw[o]
(* objects without references go away, and with them the references they hold *)
RECURSIVE Reap(_, _, _, _)
Reap(pt, nx, rw, al) ==
  LET dead == {o \in Objs : al[o] = 1 /\ Cnt(pt, nx, rw, al, o) = 0} IN
  IF dead = {} THEN <<al, [o \in Objs |-> IF al[o] = 1 THEN nx[o] ELSE 0]>>
  ELSE Reap(pt, nx, rw, [o \in Objs |-> IF o \in dead THEN 0 ELSE al[o]])
Upd(pt, nx, rw, al, rc) == LET r == Reap(pt, nx, rw, al) IN
  /\ ptr' = pt /\ raw' = rw /\ alive' = r[1] /\ nxt' = r[2] /\ pend' = [op |-> "ret", rc |-> rc]
Full(q) == [op |-> q.op, rc |-> q.rc, cnt |-> [o \in Objs |-> IF alive[o] = 1 THEN Cnt(ptr, nxt, raw, alive, o) ELSE 0 - 1],
            ptr |-> ptr, nxt |-> nxt, cmp |-> 1]
Pending(e) == pend.op # "none" /\ e = Full(pend)
Observe == pend.op # "none" /\ pend' = NoObs /\ UNCHANGED <<alive, ptr, nxt, raw>>

Fresh == IF \E o \in Objs : alive[o] = 0 THEN CHOOSE o \in Objs : alive[o] = 0 /\ \A x \in 1..(o - 1) : alive[x] = 1 ELSE 0
S(p, v) == [ptr EXCEPT ![p] = v]
Go(pt) == Upd(pt, nxt, raw, alive, 0)
New(p, how) == LET o == Fresh IN Upd(S(p, o), nxt, raw, [alive EXCEPT ![o] = 1], 0)

RECURSIVE Reach(_, _)
Reach(o, t) == IF o = t THEN TRUE ELSE IF o = 0 THEN FALSE ELSE Reach(nxt[o], t)

(* a swap of two pointers *)
Swap(p, q) == Go([ptr EXCEPT ![p] = ptr[q], ![q] = ptr[p]])
(* p takes q's reference *)
Take(p, q) == IF p = q THEN Go(ptr) ELSE Go([ptr EXCEPT ![p] = ptr[q], ![q] = 0])
Detach(p) == Upd(S(p, 0), nxt, IF ptr[p] > 0 THEN [raw EXCEPT ![ptr[p]] = @ + 1] ELSE raw, alive, ptr[p])
Adopt(p, o) == Upd(S(p, o), nxt, [raw EXCEPT ![o] = @ - 1], alive, 0)
Link(o, q) == Upd(ptr, [nxt EXCEPT ![o] = ptr[q]], raw, alive, 0)
LinkMove(o, q) == Upd(S(q, 0), [nxt EXCEPT ![o] = ptr[q]], raw, alive, 0)
(* p = p->next, by copy (0) or by moving the reference out (1) *)
Adv(p, q, mv) == Upd(S(p, nxt[ptr[q]]), IF mv = 1 THEN [nxt EXCEPT ![ptr[q]] = 0] ELSE nxt, raw, alive, 0)

Ex(p) == ptr[p] # 0 - 1
Legal(c) ==
  CASE c[1] = "null" -> ~Ex(c[2])
    [] c[1] = "new" -> ~Ex(c[2]) /\ Fresh # 0
    [] c[1] \in {"assnew", "assuniq", "resetnew"} -> Ex(c[2]) /\ Fresh # 0
    [] c[1] \in {"ctor", "rawctor"} -> ~Ex(c[2]) /\ Ex(c[3]) /\ (IsB(c[3]) => IsB(c[2]))
    [] c[1] = "mctor" -> ~Ex(c[2]) /\ Ex(c[3]) /\ (IsB(c[3]) => IsB(c[2]))
    [] c[1] \in {"ass", "mass"} -> Ex(c[2]) /\ Ex(c[3]) /\ (IsB(c[3]) => IsB(c[2])) /\ (c[1] = "mass" => c[2] # c[3])
    [] c[1] = "resetraw" -> Ex(c[2]) /\ Ex(c[3]) /\ (IsB(c[3]) => IsB(c[2]))
    [] c[1] = "cast" -> Ex(c[2]) /\ Ex(c[3]) /\ (c[4] \in {1, 2} => IsB(c[3]) /\ ~IsB(c[2])) /\ (c[4] = 3 => IsB(c[2]) = IsB(c[3]))
    [] c[1] = "swap" -> Ex(c[2]) /\ Ex(c[3]) /\ IsB(c[2]) = IsB(c[3])
    [] c[1] \in {"reset", "del", "detach"} -> Ex(c[2])
    [] c[1] = "adopt" -> ~Ex(c[2]) /\ raw[c[3]] > 0
    [] c[1] = "resetadopt" -> Ex(c[2]) /\ raw[c[3]] > 0
    [] c[1] \in {"link", "linkmv"} -> alive[c[2]] = 1 /\ Ex(c[3]) /\ ~Reach(ptr[c[3]], c[2]) /\ (c[1] = "linkmv" => IsB(c[3]))
    [] c[1] = "adv" -> Ex(c[2]) /\ Ex(c[3]) /\ ptr[c[3]] > 0 /\ IsB(c[2])
    [] OTHER -> FALSE
Do(c) ==
  CASE c[1] = "null" -> Go(S(c[2], 0))
    [] c[1] \in {"new", "assnew", "assuniq", "resetnew"} -> New(c[2], c[1])
    [] c[1] \in {"ctor", "rawctor", "ass", "resetraw", "cast"} -> Go(S(c[2], ptr[c[3]]))
    [] c[1] = "mctor" -> Take(c[2], c[3])
    [] c[1] = "mass" -> IF IsB(c[2]) = IsB(c[3]) THEN Take(c[2], c[3])
                        ELSE Take(c[2], c[3]) \/ Go(S(c[2], ptr[c[3]]))   \* a converting move may share the reference instead
    [] c[1] = "swap" -> Swap(c[2], c[3])
    [] c[1] = "reset" -> Go(S(c[2], 0))
    [] c[1] = "del" -> Go(S(c[2], 0 - 1))
    [] c[1] = "detach" -> Detach(c[2])
    [] c[1] \in {"adopt", "resetadopt"} -> Adopt(c[2], c[3])
    [] c[1] = "link" -> Link(c[2], c[3])
    [] c[1] = "linkmv" -> LinkMove(c[2], c[3])
    [] c[1] = "adv" -> Adv(c[2], c[3], c[4])
F(x) == x \in Features
AllCmds ==
  {<<o, p>> : o \in {"new", "reset", "del"}, p \in Ptrs} \cup {<<o, p, q>> : o \in {"ctor", "mctor", "ass", "mass", "swap"}, p \in Ptrs, q \in Ptrs}
  \cup (IF F("more") THEN {<<"null", p>> : p \in Ptrs} \cup {<<o, p>> : o \in {"assnew", "assuniq", "resetnew"}, p \in Ptrs}
                          \cup {<<o, p, q>> : o \in {"rawctor", "resetraw"}, p \in Ptrs, q \in Ptrs}
                          \cup {<<"cast", p, q, k>> : p \in Ptrs, q \in Ptrs, k \in 1..3} ELSE {})
  \cup (IF F("detach") THEN {<<"detach", p>> : p \in Ptrs} \cup {<<o, p, x>> : o \in {"adopt", "resetadopt"}, p \in Ptrs, x \in Objs} ELSE {})
  \cup (IF F("link") THEN {<<o, x, q>> : o \in {"link", "linkmv"}, x \in Objs, q \in Ptrs} \cup {<<"adv", p, q, k>> : p \in Ptrs, q \in Ptrs, k \in {0, 1}} ELSE {})
Ok(c) == Legal(c) /\ (c[1] = "detach" => ptr[c[2]] = 0 \/ raw[ptr[c[2]]] < 2)
Cmds == {c \in AllCmds : Ok(c)}
Next == \/ (Quiet /\ \E c \in Cmds : Do(c)) \/ Observe
-----------------------------------------------------------------------------
AliveIffReferenced == \A o \in Objs : (alive[o] = 1) <=> (Cnt(ptr, nxt, raw, alive, o) > 0)
NoDangling == (\A p \in Ptrs : ptr[p] > 0 => alive[ptr[p]] = 1) /\ (\A o \in Objs : nxt[o] > 0 => alive[nxt[o]] = 1)
====
