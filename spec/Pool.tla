---- MODULE Pool ----
(* The stack pool (K01, K02): one pool in front of one origin allocator.  Stacks are named by the smallest number free
   when the origin allocator hands them out; `holder` slots stand for users.  Every command is one pool call; its
   observation lists the calls the pool made to the origin allocator, in order. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N,        \* user slots
          Unit,     \* bytes per unit of requested stack size
          MinSz,    \* stack_traits::minimum_size() of this machine
          Page,
          Sizes,    \* stack sizes used with setsize (in units, 0: the minimum)
          Limits,   \* values for limits (numbers; byte limits are this many units, 100 + k: one byte less than k units)
          Modes,    \* how much the origin allocator adds, see Given
          MaxFree,  \* bound on idle stacks during generation
          Features
Slots == 1..N
NoObs == [op |-> "none"]
VARIABLES alive,    \* 0 no pool, 1 pool with the user's own reference, 2 only kept by allocator handles
          mode, size, offset, maxn, maxs, minn, mins, auto, gcn,
          hold,     \* hold[i] = <<id, bytes>>, id 0 when empty
          free,     \* idle stacks, oldest first
          pend
conf == <<alive, mode, size, offset, maxn, maxs, minn, mins, auto, gcn>>
vars == <<conf, hold, free, pend>>
None == <<0, 0>>
Internal == FALSE /\ UNCHANGED vars
Quiet == pend.op = "none"

(* what the origin allocator hands out when asked for sz *)
Given(m, sz) == CASE m = 0 -> sz
                  [] m = 1 -> sz + Page
                  [] m = 2 -> (LET RECURSIVE P(_) P(k) == IF k >= sz THEN k ELSE P(2 * k) IN P(Unit))
                  [] m = 3 -> ((sz + Page - 1) \div Page) * Page + Page   \* the mmap allocator: whole pages and a guard
                  [] m = 4 -> ((sz + Page - 1) \div Page) * Page          \* the malloc allocator
SizeOf(k) == IF k * Unit <= MinSz THEN MinSz ELSE k * Unit
Bytes(v) == IF v > 100 THEN (v - 100) * Unit - 1 ELSE v * Unit

Held(h) == {i \in Slots : h[i][1] # 0}
RECURSIVE SumF(_), SumH(_, _)
SumF(s) == IF s = <<>> THEN 0 ELSE Head(s)[2] + SumF(Tail(s))
SumH(h, k) == IF k = 0 THEN 0 ELSE h[k][2] + SumH(h, k - 1)
UsedN(h) == Cardinality(Held(h))
UsedS(h) == SumH(h, N)
Out == {hold[i][1] : i \in Held(hold)} \cup {free[k][1] : k \in 1..Len(free)}
Fresh == CHOOSE x \in 1..(Cardinality(Out) + 1) : x \notin Out /\ \A y \in 1..(x - 1) : y \in Out

Init == /\ alive = 0 /\ mode = 0 /\ size = 0 /\ offset = 0 /\ maxn = 0 /\ maxs = 0 /\ minn = 0 /\ mins = 0 /\ auto = 1 /\ gcn = 0
        /\ hold = [i \in Slots |-> None] /\ free = <<>> /\ pend = NoObs

(* r: result; l: origin allocator calls *)
Ret(r, l) == [op |-> "ret", rc |-> r, log |-> l]
Full(p) == [op |-> p.op, rc |-> p.rc, log |-> p.log,
            lim |-> IF alive = 0 THEN <<0, 0, 0, 0>> ELSE <<UsedN(hold), UsedS(hold), Len(free), SumF(free)>>,
            conf |-> IF alive = 0 THEN <<0, 0, 0, 0, 0, 0>> ELSE <<size, maxn, maxs, minn, mins, gcn>>,
            out |-> Cardinality(Out), mem |-> 1]
Pending(e) == pend.op # "none" /\ e = Full(pend)
Observe == pend.op # "none" /\ pend' = NoObs /\ UNCHANGED <<conf, hold, free>>

D(s) == <<"d", s[1], s[2]>>
Ds(seq) == [k \in 1..Len(seq) |-> D(seq[k])]

New(m) == /\ alive' = 1 /\ mode' = m /\ size' = 8 * MinSz /\ offset' = 0 /\ maxn' = 0 /\ maxs' = 0 /\ minn' = 0 /\ mins' = 0
          /\ auto' = 1 /\ gcn' = 0 /\ UNCHANGED <<hold, free>> /\ pend' = Ret(0, <<>>)

(* f = 1: the origin allocator is out of memory *)
Alloc(i, f) ==
  LET got == Given(mode, size)
      overN == maxn # 0 /\ UsedN(hold) >= maxn
      overS(x) == maxs # 0 /\ UsedS(hold) + x > maxs
      Fail(l) == UNCHANGED <<hold, free, offset>> /\ pend' = Ret(0, l)
  IN /\ UNCHANGED <<alive, mode, size, maxn, maxs, minn, mins, auto, gcn>>
     /\ IF overN \/ overS(size + offset) THEN Fail(<<>>)
        ELSE IF free # <<>>
        THEN LET s == free[Len(free)] IN
             /\ hold' = [hold EXCEPT ![i] = s] /\ free' = SubSeq(free, 1, Len(free) - 1)
             /\ UNCHANGED offset /\ pend' = Ret(s[1], <<>>)
        ELSE IF f = 1 THEN Fail(<< <<"f", 0, size>> >>)
        ELSE IF overS(got) THEN Fail(<< <<"a", Fresh, size>>, <<"d", Fresh, got>> >>)
        ELSE /\ hold' = [hold EXCEPT ![i] = <<Fresh, got>>] /\ offset' = got - size /\ UNCHANGED free
             /\ pend' = Ret(Fresh, << <<"a", Fresh, size>> >>)

(* one collection pass: the number of the oldest idle stacks that are given back *)
GcCount(h, fr) ==
  LET un == UsedN(h) us == UsedS(h) fn == Len(fr) fs == SumF(fr)
      small == (minn # 0 \/ mins # 0) /\ (mins = 0 \/ us + fs <= mins) /\ (minn = 0 \/ fn + un <= minn)
      keepS == fs \div 2
      keepN == fn \div 2
      Enough(k) == LET rest == SubSeq(fr, k + 1, fn) IN SumF(rest) <= keepS /\ Len(rest) <= keepN
      k0 == CHOOSE k \in 0..fn : Enough(k) /\ \A j \in 0..(k - 1) : ~Enough(j)
  IN IF (us >= fs /\ un >= fn) \/ small THEN 0 ELSE IF gcn # 0 /\ gcn < k0 THEN gcn ELSE k0
Rest(fr, k) == SubSeq(fr, k + 1, Len(fr))
First(fr, k) == SubSeq(fr, 1, k)

(* the last handle is gone: everything idle goes back *)
Die == /\ alive' = 0 /\ UNCHANGED <<mode, size, offset, maxn, maxs, minn, mins, auto, gcn>>

Free(i) ==
  LET s == hold[i]
      h == [hold EXCEPT ![i] = None]
      keep == s[2] = size + offset
      fr == IF keep THEN Append(free, s) ELSE free
      k == IF auto = 1 THEN GcCount(h, fr) ELSE 0
      l == (IF keep THEN <<>> ELSE <<D(s)>>) \o Ds(First(fr, k))
      last == alive = 2 /\ Held(h) = {}
  IN /\ hold' = h
     /\ IF last THEN Die /\ free' = <<>> /\ pend' = Ret(0, l \o Ds(Rest(fr, k)))
        ELSE UNCHANGED conf /\ free' = Rest(fr, k) /\ pend' = Ret(0, l)

Gc == LET k == GcCount(hold, free) IN UNCHANGED <<conf, hold>> /\ free' = Rest(free, k) /\ pend' = Ret(k, Ds(First(free, k)))
Clear == UNCHANGED <<conf, hold>> /\ free' = <<>> /\ pend' = Ret(0, Ds(free))

SetSize(v) ==
  LET sz == SizeOf(v) IN
  /\ UNCHANGED <<alive, mode, maxn, maxs, minn, mins, auto, gcn, hold>> /\ size' = sz
  /\ IF sz = size THEN UNCHANGED <<free, offset>> /\ pend' = Ret(sz, <<>>)
     ELSE free' = <<>> /\ offset' = 0 /\ pend' = Ret(sz, Ds(free))

Set(w, v) ==
  /\ UNCHANGED <<alive, mode, size, offset, hold, free>> /\ pend' = Ret(0, <<>>)
  /\ maxn' = IF w = 1 THEN v ELSE maxn
  /\ maxs' = IF w = 2 THEN Bytes(v) ELSE maxs
  /\ minn' = IF w = 3 THEN v ELSE minn
  /\ mins' = IF w = 4 THEN Bytes(v) ELSE mins
  /\ auto' = IF w = 5 THEN v ELSE auto
  /\ gcn' = IF w = 6 THEN v ELSE gcn

(* the user gives up the pool; stacks still in use keep it alive *)
DropPool == /\ UNCHANGED <<mode, size, offset, maxn, maxs, minn, mins, auto, gcn, hold>>
            /\ IF Held(hold) = {} THEN alive' = 0 /\ free' = <<>> /\ pend' = Ret(0, Ds(free))
               ELSE alive' = 2 /\ UNCHANGED free /\ pend' = Ret(0, <<>>)

Legal(c) ==
  CASE c[1] = "new" -> alive = 0
    [] c[1] = "alloc" -> alive = 1 /\ hold[c[2]] = None
    [] c[1] = "free" -> hold[c[2]] # None
    [] c[1] \in {"gc", "clear", "size", "drop", "set"} -> alive = 1
    [] OTHER -> FALSE
Do(c) == CASE c[1] = "new" -> New(c[2])
           [] c[1] = "alloc" -> Alloc(c[2], c[3])
           [] c[1] = "free" -> Free(c[2])
           [] c[1] = "gc" -> Gc
           [] c[1] = "clear" -> Clear
           [] c[1] = "size" -> SetSize(c[2])
           [] c[1] = "set" -> Set(c[2], c[3])
           [] c[1] = "drop" -> DropPool
F(x) == x \in Features
AllCmds == {<<"new", m>> : m \in Modes}
  \cup {<<"alloc", i, f>> : i \in Slots, f \in (IF F("fail") THEN {0, 1} ELSE {0})}
  \cup {<<"free", i>> : i \in Slots}
  \cup (IF F("gc") THEN {<<"gc">>} ELSE {}) \cup (IF F("clear") THEN {<<"clear">>} ELSE {})
  \cup {<<"size", v>> : v \in Sizes}
  \cup (IF F("maxn") THEN {<<"set", 1, v>> : v \in {x \in Limits : x < 100}} ELSE {})
  \cup (IF F("maxs") THEN {<<"set", 2, v>> : v \in Limits} ELSE {})
  \cup (IF F("minn") THEN {<<"set", 3, v>> : v \in {x \in Limits : x < 100}} ELSE {})
  \cup (IF F("mins") THEN {<<"set", 4, v>> : v \in Limits} ELSE {})
  \cup (IF F("auto") THEN {<<"set", 5, v>> : v \in {0, 1}} ELSE {})
  \cup (IF F("gcn") THEN {<<"set", 6, v>> : v \in {x \in Limits : x < 100}} ELSE {})
  \cup (IF F("drop") THEN {<<"drop">>} ELSE {})
(* slots are interchangeable: use the lowest empty one; configuration only moves to new values *)
Ok(c) == /\ Legal(c)
         /\ (c[1] = "alloc" => \A j \in 1..(c[2] - 1) : hold[j] # None)
         /\ (c[1] = "free" => Len(free) < MaxFree)
Cmds == {c \in AllCmds : Ok(c)}
Next == \/ (Quiet /\ \E c \in Cmds : Do(c)) \/ Observe

-----------------------------------------------------------------------------
(* K01 *)
Disjoint == \A i, j \in Slots : (i # j /\ hold[i][1] # 0) => hold[i][1] # hold[j][1]
IdleNotUsed == \A k \in 1..Len(free) : \A i \in Slots : hold[i][1] # free[k][1]
IdleOnce == \A j, k \in 1..Len(free) : j # k => free[j][1] # free[k][1]
BigEnough == \A k \in 1..Len(free) : free[k][2] >= size
DeadHoldsNothing == alive = 0 => (free = <<>> /\ Held(hold) = {})
(* the origin allocator's calls of one operation account exactly for the change in what the pool has *)
Accounted == [][LET a == Cardinality({k \in 1..Len(pend'.log) : pend'.log[k][1] = "a"})
                    d == Cardinality({k \in 1..Len(pend'.log) : pend'.log[k][1] = "d"})
                IN pend'.op = "ret" => Cardinality(Out') = Cardinality(Out) + a - d]_vars
(* K02 *)
Granted == pend'.op = "ret" /\ UsedN(hold') > UsedN(hold)
Maxima == [][Granted => /\ (maxn # 0 => UsedN(hold') <= maxn) /\ (maxs # 0 => UsedS(hold') <= maxs)]_vars
NewestFirst == [][(Granted /\ free # <<>>) => (free' = SubSeq(free, 1, Len(free) - 1) /\ pend'.log = <<>>)]_vars
(* collection takes the oldest idle stacks, at most gcn, and only while the pool is larger than its minima *)
IsGc == pend.op = "none" /\ pend'.op = "ret" /\ hold' = hold /\ alive' = alive /\ size' = size /\ alive = 1 /\ pend'.rc > 0 /\ pend'.rc # size'
CollectOldest == [][IsGc => /\ free' = SubSeq(free, pend'.rc + 1, Len(free))
                            /\ (gcn # 0 => pend'.rc <= gcn)
                            /\ ((minn # 0 /\ mins # 0) => (Len(free) + UsedN(hold) > minn \/ SumF(free) + UsedS(hold) > mins))
                            /\ ((minn # 0 /\ mins = 0) => Len(free) + UsedN(hold) > minn)
                            /\ ((minn = 0 /\ mins # 0) => SumF(free) + UsedS(hold) > mins)]_vars
====
