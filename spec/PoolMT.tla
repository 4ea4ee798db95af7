---- MODULE PoolMT ----
(* The stack pool used by several threads (K03).  Every pool call takes effect at one moment between its start and its end (giving a
   stack back and the collection that may follow it are two such moments); the pool's calls to the origin allocator are logged when
   they happen.  Stacks are named by the smallest number free when the origin allocator hands them out. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS T, K,     \* threads, slots per thread (thread t uses slots K*(t-1)+1 .. K*t)
          Features
Thr == 0..T         \* 0: the main thread, before and after the others
Slots == 1..(K * T)
VARIABLES size, maxn, maxs, minn, gcn, auto,
          refs,     \* threads that keep a reference to the pool
          hold,     \* hold[s] = <<id, bytes>>
          idle,     \* idle stacks, oldest first
          out,      \* stacks the origin allocator has handed out and not got back
          th
conf == <<size, maxn, maxs, minn, gcn, auto>>
vars == <<conf, refs, hold, idle, out, th>>
None == <<0, 0>>
Idle == [st |-> "idle"]
Init == /\ size = 1 /\ maxn = 0 /\ maxs = 0 /\ minn = 0 /\ gcn = 0 /\ auto = 1 /\ refs = Thr
        /\ hold = [s \in Slots |-> None] /\ idle = <<>> /\ out = {} /\ th = [t \in Thr |-> Idle]

(* a stack counts as used from the moment its allocation took effect *)
Used == {<<"s", s>> : s \in {x \in Slots : hold[x] # None}} \cup {<<"t", t>> : t \in {x \in Thr : th[x].st \in {"want", "got"}}}
BytesOf(u) == IF u[1] = "s" THEN hold[u[2]][2] ELSE th[u[2]].b
RECURSIVE Sum(_), SumF(_)
Sum(S) == IF S = {} THEN 0 ELSE LET u == CHOOSE u \in S : TRUE IN BytesOf(u) + Sum(S \ {u})
SumF(s) == IF s = <<>> THEN 0 ELSE Head(s)[2] + SumF(Tail(s))
UN == Cardinality(Used)
US == Sum(Used)
FreshId == CHOOSE x \in 1..(Cardinality(out) + 1) : x \notin out /\ \A y \in 1..(x - 1) : y \in out
Set1(s) == {s[k][1] : k \in 1..Len(s)}

Call(c) == LET t == c[2] IN
  /\ th[t].st = "idle" /\ th' = [th EXCEPT ![t] = [st |-> "call", op |-> c[1], a |-> c[3], drop |-> {}]]
  /\ (c[1] = "alloc" => hold[c[3]] = None /\ t \in refs) /\ (c[1] = "free" => hold[c[3]] # None)
  /\ (c[1] \in {"gc", "clear", "size"} => t \in refs) /\ (c[1] = "drop" => c[3] \in refs)
  /\ UNCHANGED <<conf, refs, hold, idle, out>>

Done(t, rc, drop) == th' = [th EXCEPT ![t] = [st |-> "done", op |-> @.op, a |-> @.a, rc |-> rc, drop |-> drop]]
\* a second effect follows
More(t, drop) == th' = [th EXCEPT ![t] = [st |-> "call2", op |-> @.op, a |-> @.a, drop |-> drop]]
Ids(drop, s) == drop \cup Set1(s)

GcCount(un, us, fr) ==
  LET fn == Len(fr) fs == SumF(fr)
      small == minn # 0 /\ fn + un <= minn
      Enough(k) == LET rest == SubSeq(fr, k + 1, fn) IN SumF(rest) <= fs \div 2 /\ Len(rest) <= fn \div 2
      k0 == CHOOSE k \in 0..fn : Enough(k) /\ \A j \in 0..(k - 1) : ~Enough(j)
  IN IF (us >= fs /\ un >= fn) \/ small THEN 0 ELSE IF gcn # 0 /\ gcn < k0 THEN gcn ELSE k0

LastGone(h, r) == r = {} /\ \A s \in Slots : h[s] = None
Alloc(t) ==
  /\ UNCHANGED <<conf, refs, out, hold>>
  /\ IF (maxn # 0 /\ UN >= maxn) \/ (maxs # 0 /\ US + size > maxs) THEN Done(t, 0, {}) /\ UNCHANGED idle
     ELSE IF idle # <<>>
     THEN /\ th' = [th EXCEPT ![t] = [st |-> "got", op |-> "alloc", a |-> @.a, id |-> idle[Len(idle)][1], b |-> idle[Len(idle)][2]]]
          /\ idle' = SubSeq(idle, 1, Len(idle) - 1)
     ELSE th' = [th EXCEPT ![t] = [st |-> "want", op |-> "alloc", a |-> @.a, b |-> size]] /\ UNCHANGED idle
Free(t) ==
  LET s == hold[th[t].a] IN
  /\ UNCHANGED <<conf, refs, out>> /\ hold' = [hold EXCEPT ![th[t].a] = None]
  /\ IF s[2] = size THEN idle' = Append(idle, s) /\ More(t, {}) ELSE UNCHANGED idle /\ More(t, {s[1]})
Collect(t, drop) ==
  LET k == GcCount(UN, US, idle) IN
  /\ UNCHANGED <<conf, refs, hold, out>> /\ idle' = SubSeq(idle, k + 1, Len(idle))
  /\ IF th[t].op = "gc" THEN Done(t, k, Ids(drop, SubSeq(idle, 1, k)))
     ELSE th' = [th EXCEPT ![t] = [st |-> "call3", op |-> @.op, a |-> @.a, drop |-> Ids(drop, SubSeq(idle, 1, k))]]
\* the slot's own reference goes with it
Leave(t) == LET gone == LastGone(hold, refs) IN
  /\ UNCHANGED <<conf, refs, hold, out>> /\ idle' = IF gone THEN <<>> ELSE idle
  /\ Done(t, 0, IF gone THEN Ids(th[t].drop, idle) ELSE th[t].drop)
Flush(t) == UNCHANGED <<conf, refs, hold, out>> /\ idle' = <<>> /\ Done(t, 0, Set1(idle))
Size(t) == LET v == th[t].a IN
  /\ UNCHANGED <<maxn, maxs, minn, gcn, auto, refs, hold, out>> /\ size' = v
  /\ idle' = (IF v = size THEN idle ELSE <<>>) /\ Done(t, v, IF v = size THEN {} ELSE Set1(idle))
Set(t, w, v) ==
  /\ UNCHANGED <<size, refs, hold, idle, out>> /\ Done(t, 0, {})
  /\ maxn' = (IF w = 1 THEN v ELSE maxn) /\ maxs' = (IF w = 2 THEN v ELSE maxs) /\ minn' = (IF w = 3 THEN v ELSE minn)
  /\ gcn' = (IF w = 6 THEN v ELSE gcn) /\ auto' = (IF w = 5 THEN v ELSE auto)
Drop(t) == LET r == refs \ {th[t].a} gone == LastGone(hold, r) IN
  /\ UNCHANGED <<conf, hold, out>> /\ refs' = r /\ idle' = (IF gone THEN <<>> ELSE idle)
  /\ Done(t, 0, IF gone THEN Set1(idle) ELSE {})
Lin(t) == LET op == th[t].op IN
  IF th[t].st = "call" THEN
    CASE op = "alloc" -> Alloc(t)
      [] op = "free" -> Free(t)
      [] op = "gc" -> Collect(t, {})
      [] op = "clear" -> Flush(t)
      [] op = "size" -> Size(t)
      [] op = "drop" -> Drop(t)
      [] op = "set" -> Set(t, th[t].a[1], th[t].a[2])
  ELSE IF th[t].st = "call2" THEN
    (IF auto = 1 THEN Collect(t, th[t].drop) ELSE
       th' = [th EXCEPT ![t] = [st |-> "call3", op |-> @.op, a |-> @.a, drop |-> @.drop]] /\ UNCHANGED <<conf, refs, hold, idle, out>>)
  ELSE Leave(t)
Internal == \E t \in Thr : th[t].st \in {"call", "call2", "call3"} /\ Lin(t)

Obs(e) ==
  CASE e.op = "oa" -> \* the origin allocator hands out a stack
         /\ th[e.t].st = "want" /\ e.b = th[e.t].b /\ e.id = FreshId /\ out' = out \cup {e.id}
         /\ th' = [th EXCEPT ![e.t] = [st |-> "got", op |-> "alloc", a |-> @.a, id |-> e.id, b |-> @.b]]
         /\ UNCHANGED <<conf, refs, hold, idle>>
    [] e.op = "of" -> \* and gets one back
         /\ th[e.t].st \in {"call2", "call3", "done"} /\ e.id \in th[e.t].drop /\ out' = out \ {e.id}
         /\ th' = [th EXCEPT ![e.t].drop = @ \ {e.id}]
         /\ UNCHANGED <<conf, refs, hold, idle>>
    [] e.op = "ret" ->
         /\ IF th[e.t].st = "got"
            THEN e.rc = th[e.t].id /\ hold' = [hold EXCEPT ![th[e.t].a] = <<th[e.t].id, th[e.t].b>>]
            ELSE th[e.t].st = "done" /\ th[e.t].drop = {} /\ e.rc = th[e.t].rc /\ UNCHANGED hold
         /\ th' = [th EXCEPT ![e.t] = Idle] /\ UNCHANGED <<conf, refs, idle, out>>
    [] e.op = "lim" ->
         /\ \A t \in Thr : th[t].st = "idle"
         /\ e.lim = <<UN, US, Len(idle), SumF(idle)>> /\ UNCHANGED vars
    [] e.op = "end" -> \A t \in Thr : th[t].st = "idle" /\ refs = {} /\ out = {} /\ e.out = 0 /\ UNCHANGED vars
    [] OTHER -> FALSE
-----------------------------------------------------------------------------
F(f) == f \in Features
Cnt(h, ops) == Cardinality({i \in DOMAIN h : h[i][1] \in ops})
Menu(t, h) ==
  IF t = 0 THEN
    \* limits first, then what is idle or in use when the threads start
    (IF Len(h) = 0 THEN {<<"set", 5, 1>>} \cup (IF F("maxn") THEN {<<"set", 1, v>> : v \in 1..2} ELSE {}) \cup (IF F("maxs") THEN {<<"set", 2, v>> : v \in 1..2} ELSE {})
       \cup (IF F("minn") THEN {<<"set", 3, 2>>} ELSE {}) \cup (IF F("gcn") THEN {<<"set", 6, 1>>} ELSE {}) \cup (IF F("noauto") THEN {<<"set", 5, 0>>} ELSE {})
     ELSE {<<"fill", v>> : v \in 0..2} \cup {<<"give", v>> : v \in 1..2})
  ELSE IF h # <<>> /\ h[Len(h)][1] = "drop" THEN {<<"free">>}
  ELSE {<<"alloc">>, <<"free">>} \cup (IF F("gc") THEN {<<"gc">>} ELSE {}) \cup (IF F("clear") THEN {<<"clear">>} ELSE {})
       \cup (IF F("size") THEN {<<"size", 2>>} ELSE {}) \cup (IF F("drop") THEN {<<"drop">>} ELSE {})
-----------------------------------------------------------------------------
(* design: any interleaving of calls *)
Ops(t) == {<<"alloc", t, s>> : s \in {x \in (K * (t - 1) + 1)..(K * t) : hold[x] = None}} \cup {<<"free", t, s>> : s \in {x \in (K * (t - 1) + 1)..(K * t) : hold[x] # None}}
          \cup (IF F("gc") THEN {<<"gc", t, 0>>} ELSE {}) \cup (IF F("clear") THEN {<<"clear", t, 0>>} ELSE {})
          \cup (IF F("size") THEN {<<"size", t, v>> : v \in {1, 2}} ELSE {}) \cup (IF F("drop") THEN {<<"drop", t, t>>} ELSE {})
Setup == /\ F("maxn") /\ \A t \in Thr : th[t].st = "idle"
         /\ maxn = 0 /\ out = {} /\ maxn' = 1 /\ UNCHANGED <<size, maxs, minn, gcn, auto, refs, hold, idle, out, th>>
Next == \/ Internal \/ Setup
        \/ \E t \in Thr \ {0} : \E c \in Ops(t) : (c[1] # "free" => t \in refs) /\ Call(c)
        \/ \E t \in Thr : \/ (th[t].st = "want" /\ Obs([op |-> "oa", t |-> t, id |-> FreshId, b |-> th[t].b]))
                          \/ (th[t].st = "got" /\ Obs([op |-> "ret", t |-> t, rc |-> th[t].id]))
                          \/ (th[t].st = "done" /\ th[t].drop = {} /\ Obs([op |-> "ret", t |-> t, rc |-> th[t].rc]))
                          \/ (th[t].st \in {"call2", "call3", "done"} /\ \E i \in th[t].drop : Obs([op |-> "of", t |-> t, id |-> i]))
Holders == {<<"s", s, hold[s][1]>> : s \in {x \in Slots : hold[x] # None}} \cup {<<"t", t, th[t].id>> : t \in {x \in Thr : th[x].st = "got"}}
OneOwner == \A x, y \in Holders : x # y => x[3] # y[3]
IdleApart == \A k \in 1..Len(idle) : (\A x \in Holders : x[3] # idle[k][1]) /\ (\A t \in Thr : th[t].st \in {"call2", "call3", "done"} => idle[k][1] \notin th[t].drop)
                                    /\ \A j \in 1..Len(idle) : j # k => idle[j][1] # idle[k][1]
AllAccounted == out = {x[3] : x \in Holders} \cup Set1(idle) \cup UNION {IF th[t].st \in {"call2", "call3", "done"} THEN th[t].drop ELSE {} : t \in Thr}
WithinMax == (maxn # 0 => UN <= maxn)
====
