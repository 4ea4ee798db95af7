---- MODULE Ctx ----
(* Stackful coroutine contexts (C01-C04).  Every thread has a control stack: 0 is the main function of that thread,
   i \in Ids is the body of coroutine i.  Threads run one at a time (`me` is the one that runs; the command "switch" blocks
   the top frame of the running thread and lets another thread go on).  A command is an API call made by the top frame of
   the running thread; the observation that follows is the next point at which user code gets control. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Vals, Features, NT
Thr == 1..NT
Ids == 1..N
NoObs == [op |-> "none"]
VARIABLES st,    \* "none" no object, "inv" no runner, "ready", "run", "fin"
          sus,   \* "fresh" never entered, "yld" suspended in a yield
          rc,    \* return code kept by the object
          ref,   \* references held by the main program
          fn,    \* 1: a function object lives inside
          fl,    \* flags set by the user (a number 0..3 standing for the bits 256 and 512)
          stk,   \* control stack of every thread
          me,    \* the thread that runs
          dst,   \* dst[i]: the yield that suspended i wants the value of the next resume
          pend
vars == <<st, sus, rc, ref, fn, fl, stk, me, dst, pend>>

OK == 0
NOT_INITED == -1001
ALREADY_INITED == -1002
NOT_READY == -1004
NOT_RUNNING == -1005
IS_RUNNING == -1006
ALREADY_EXIST == -1009
ARGS_ERROR == -1010

Top == stk[me][Len(stk[me])]
NOTHING == -1   \* no value was delivered
Alive(i) == st[i] # "none"

(* What a user can see of every coroutine, in the new state. *)
Snap == [i \in Ids |-> IF Alive(i) THEN <<1, IF st[i] = "fin" THEN 1 ELSE 0, rc[i], ref[i], fl[i]>> ELSE <<0, 0, 0, 0, 0>>]
Sum(f) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE f[k] + S(k-1) IN S(N)
Live == Cardinality({i \in Ids : Alive(i)})

Init == /\ st = [i \in Ids |-> "none"] /\ sus = [i \in Ids |-> "fresh"] /\ rc = [i \in Ids |-> 0]
        /\ ref = [i \in Ids |-> 0] /\ fn = [i \in Ids |-> 0] /\ fl = [i \in Ids |-> 0]
        /\ stk = [t \in Thr |-> <<0>>] /\ me = 1 /\ dst = [i \in Ids |-> 0] /\ pend = NoObs

Quiet == pend.op = "none"
Internal == FALSE /\ UNCHANGED vars

(* observation constructors; the snapshot is completed by Pending *)
Ret(r, x) == [op |-> "ret", rc |-> r, x |-> x]
Enter(i, v) == [op |-> "enter", rc |-> i, x |-> v]
YRet(r, v) == [op |-> "yret", rc |-> r, x |-> v]

Full(p) == [op |-> p.op, who |-> Top, th |-> me, rc |-> p.rc, x |-> p.x, cur |-> Top, s |-> Snap, stacks |-> Live, fns |-> Sum(fn), mem |-> 1]
Pending(e) == pend.op # "none" /\ e = Full(pend)
Observe == pend.op # "none" /\ pend' = NoObs /\ UNCHANGED <<st, sus, rc, ref, fn, fl, stk, me, dst>>

Keep == UNCHANGED <<st, sus, rc, ref, fn, fl, stk, me, dst>>

(* create i with stack configuration g (2 and 3 are too small and must fail) and runner r: 1 a function object, 2 a pointer
   to a callable, 3 a plain function; 0 an empty function object and 4 a null pointer mean no runner *)
Create(i, r, g) ==
  /\ st[i] = "none"
  /\ IF g >= 2
     THEN Keep /\ pend' = Ret(0, 0)
     ELSE /\ st' = [st EXCEPT ![i] = IF r \in {1, 2, 3} THEN "ready" ELSE "inv"]
          /\ sus' = [sus EXCEPT ![i] = "fresh"] /\ rc' = [rc EXCEPT ![i] = 0] /\ ref' = [ref EXCEPT ![i] = 1]
          /\ fn' = [fn EXCEPT ![i] = IF r = 1 THEN 1 ELSE 0] /\ fl' = [fl EXCEPT ![i] = 0]
          /\ UNCHANGED <<stk, me, dst>> /\ pend' = Ret(1, 0)

SetRunner(i, r) ==
  /\ Alive(i)
  /\ IF r = 0 THEN Keep /\ pend' = Ret(ARGS_ERROR, 0)
     ELSE IF st[i] # "inv" THEN Keep /\ pend' = Ret(ALREADY_INITED, 0)
     ELSE /\ st' = [st EXCEPT ![i] = "ready"] /\ fn' = [fn EXCEPT ![i] = 1]
          /\ UNCHANGED <<sus, rc, ref, fl, stk, me, dst>> /\ pend' = Ret(OK, 0)

(* user flags: f \in 1..3 stands for the bits 256 and 512; m = 1 mixes in a reserved bit, which refuses the whole call *)
Union(a, b) == LET p == {a, b} IN IF 3 \in p \/ p = {1, 2} THEN 3 ELSE IF a > b THEN a ELSE b
Minus(a, b) == CASE b = 3 -> 0 [] b = a -> 0 [] a = 3 -> 3 - b [] OTHER -> a
Flag(i, f, m, on) ==
  /\ Alive(i)
  /\ IF m = 1 THEN Keep /\ pend' = Ret(0, 0)
     ELSE /\ fl' = [fl EXCEPT ![i] = IF on = 1 THEN Union(@, f) ELSE Minus(@, f)]
          /\ UNCHANGED <<st, sus, rc, ref, fn, stk, me, dst>> /\ pend' = Ret(1, 0)

Push(i) == stk' = [stk EXCEPT ![me] = Append(@, i)]
Pop == stk' = [stk EXCEPT ![me] = SubSeq(@, 1, Len(@) - 1)]

(* start and resume are the same operation *)
Drive(i, v) ==
  /\ Alive(i)
  /\ CASE st[i] = "inv" -> Keep /\ pend' = Ret(NOT_INITED, 0)
       [] st[i] = "run" -> Keep /\ pend' = Ret(IS_RUNNING, 0)
       [] st[i] = "fin" -> Keep /\ pend' = Ret(NOT_READY, 0)
       [] OTHER -> /\ st' = [st EXCEPT ![i] = "run"] /\ Push(i) /\ sus' = [sus EXCEPT ![i] = "yld"]
                   /\ UNCHANGED <<rc, ref, fn, fl, me, dst>>
                   /\ pend' = IF sus[i] = "fresh" THEN Enter(i, v) ELSE YRet(OK, IF dst[i] = 1 THEN v ELSE NOTHING)

(* a yield addressed to coroutine i, with (m = 0) or without a place for the value; only the current coroutine may be
   running when addressed *)
Yield(i, m) ==
  /\ Alive(i) /\ (st[i] = "run" => Top = i)
  /\ CASE st[i] = "inv" -> Keep /\ pend' = YRet(NOT_INITED, NOTHING)
       [] st[i] = "ready" -> Keep /\ pend' = YRet(NOT_RUNNING, NOTHING)
       [] st[i] = "fin" -> Keep /\ pend' = YRet(ALREADY_EXIST, NOTHING)
       [] OTHER -> /\ st' = [st EXCEPT ![i] = "ready"] /\ Pop /\ dst' = [dst EXCEPT ![i] = 1 - m]
                   /\ UNCHANGED <<sus, rc, ref, fn, fl, me>> /\ pend' = Ret(OK, 0)

TYield(m) == IF Top = 0 THEN Keep /\ pend' = YRet(NOT_RUNNING, NOTHING) ELSE Yield(Top, m)

Finish(c) == /\ Top # 0
             /\ st' = [st EXCEPT ![Top] = "fin"] /\ rc' = [rc EXCEPT ![Top] = c] /\ Pop
             /\ UNCHANGED <<sus, ref, fn, fl, me, dst>> /\ pend' = Ret(OK, 0)

Throw(x) == /\ Top # 0
            /\ st' = [st EXCEPT ![Top] = "fin"] /\ Pop
            /\ UNCHANGED <<sus, rc, ref, fn, fl, me, dst>> /\ pend' = Ret(OK, x)

(* another thread goes on where it was *)
Switch(t) == /\ t \in Thr /\ t # me /\ me' = t /\ UNCHANGED <<st, sus, rc, ref, fn, fl, stk, dst>> /\ pend' = Ret(OK, 0)

Dup(i) == /\ Alive(i) /\ ref[i] < 2 /\ ref' = [ref EXCEPT ![i] = @ + 1] /\ UNCHANGED <<st, sus, rc, fn, fl, stk, me, dst>>
          /\ pend' = Ret(OK, 0)

(* dropping the last reference of a coroutine that is executing is outside the contract *)
Drop(i) == /\ Alive(i) /\ ref[i] > 0 /\ (ref[i] = 1 => st[i] # "run")
           /\ ref' = [ref EXCEPT ![i] = @ - 1]
           /\ IF ref[i] = 1 THEN st' = [st EXCEPT ![i] = "none"] /\ fn' = [fn EXCEPT ![i] = 0] /\ fl' = [fl EXCEPT ![i] = 0]
                                 /\ rc' = [rc EXCEPT ![i] = 0] /\ sus' = [sus EXCEPT ![i] = "fresh"] /\ dst' = [dst EXCEPT ![i] = 0]
              ELSE UNCHANGED <<st, fn, fl, rc, sus, dst>>
           /\ UNCHANGED <<stk, me>> /\ pend' = Ret(OK, 0)

Legal(c) ==
  CASE c[1] = "create" -> st[c[2]] = "none"
    [] c[1] \in {"setrun", "drive", "flag"} -> Alive(c[2])
    [] c[1] = "switch" -> c[2] # me
    [] c[1] = "yield" -> Alive(c[2]) /\ (st[c[2]] = "run" => Top = c[2])
    [] c[1] = "tyield" -> TRUE
    [] c[1] \in {"finish", "throw"} -> Top # 0
    [] c[1] = "dup" -> Alive(c[2]) /\ ref[c[2]] < 2
    [] c[1] = "drop" -> Alive(c[2]) /\ ref[c[2]] > 0 /\ (ref[c[2]] = 1 => st[c[2]] # "run")
    [] OTHER -> FALSE

Do(c) == CASE c[1] = "create" -> Create(c[2], c[3], c[4])
           [] c[1] = "setrun" -> SetRunner(c[2], c[3])
           [] c[1] = "drive" -> Drive(c[2], c[3])
           [] c[1] = "yield" -> Yield(c[2], c[3])
           [] c[1] = "tyield" -> TYield(c[2])
           [] c[1] = "flag" -> Flag(c[2], c[3], c[4], c[5])
           [] c[1] = "switch" -> Switch(c[2])
           [] c[1] = "finish" -> Finish(c[2])
           [] c[1] = "throw" -> Throw(c[2])
           [] c[1] = "dup" -> Dup(c[2])
           [] c[1] = "drop" -> Drop(c[2])

YM == IF "modes" \in Features THEN {0, 1} ELSE {0}
AllCmds ==
       {<<"create", i, r, g>> : i \in Ids, r \in (IF "variants" \in Features THEN 0..4 ELSE {0, 1}), g \in (IF "sizes" \in Features THEN 0..3 ELSE {0})}
  \cup (IF "runner" \in Features THEN {<<"setrun", i, r>> : i \in Ids, r \in {0, 1}} ELSE {})
  \cup {<<"drive", i, v, m>> : i \in Ids, v \in Vals, m \in (IF "modes" \in Features THEN 0..3 ELSE {0})}
  \cup (IF "yieldany" \in Features THEN {<<"yield", i, m>> : i \in Ids, m \in YM} ELSE {})
  \cup {<<"tyield", m>> : m \in YM} \cup {<<"finish", r>> : r \in Vals}
  \cup (IF "throw" \in Features THEN {<<"throw", r>> : r \in Vals \ {0}} ELSE {})
  \cup (IF "flags" \in Features THEN {<<"flag", i, f, m, o>> : i \in Ids, f \in 1..3, m \in {0, 1}, o \in {0, 1}} ELSE {})
  \cup {<<"switch", t>> : t \in Thr}
  \cup (IF "refs" \in Features THEN {<<"dup", i>> : i \in Ids} \cup {<<"drop", i>> : i \in Ids} ELSE {})
Ok(c) == Legal(c)
Cmds == {c \in AllCmds : Ok(c)}

Next == \/ (Quiet /\ \E c \in Cmds : Do(c)) \/ Observe

-----------------------------------------------------------------------------
(* C01/C03: a running coroutine has exactly one frame on exactly one thread, nothing else has one *)
OneFrame == \A i \in Ids : Cardinality({x \in Thr \X (1..(N + 1)) : x[2] <= Len(stk[x[1]]) /\ stk[x[1]][x[2]] = i})
                          = (IF st[i] = "run" THEN 1 ELSE 0)
MainBelow == \A t \in Thr : stk[t][1] = 0 /\ \A k \in 2..Len(stk[t]) : stk[t][k] # 0
(* C04 *)
RefsMatch == \A i \in Ids : Alive(i) <=> ref[i] > 0
FnMatch == \A i \in Ids : fn[i] = 1 => (Alive(i) /\ st[i] # "inv")
(* C01: finished is final until the object goes away; a coroutine that left "fresh" never enters again *)
FinalSticky == [][\A i \in Ids : st[i] = "fin" => (st'[i] \in {"fin", "none"} /\ (st'[i] = "fin" => rc'[i] = rc[i]))]_vars
EnterOnce == [][\A i \in Ids : (pend'.op = "enter" /\ pend'.rc = i) => sus[i] = "fresh"]_vars
(* C03: control returns to the frame below, on the thread that ran; the other threads are where they were *)
ReturnBelow == [][\A t \in Thr : /\ (Len(stk'[t]) < Len(stk[t]) => (t = me /\ stk'[t] = SubSeq(stk[t], 1, Len(stk[t]) - 1)))
                                  /\ (t # me => stk'[t] = stk[t])]_vars
====
