---- MODULE Fit ----
(* Making coroutines and tasks (C05): what is asked for - stack, private buffer, room before the object - either fits and is given,
   or nothing is made and nothing stays behind.  Rounding is not fixed: what cannot fit must be refused, what leaves Slack bytes
   must be made, in between either is right.  Sizes of Huge and above stand for SIZE_MAX - (x - Huge), and add up without wrapping. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS S,          \* slots
          Stacks, Privs, Extras, Kinds, Modes, Raws, Features
Huge == 500000000
Slack == 8192
Slots == 1..S
F(x) == x \in Features
VARIABLES ki,     \* ki[i]: 0 empty, 1..3 coroutine, 4..6 task, 7 context on the caller's memory
          rm,     \* rm[i]: it is certain that a body can run
          rn,     \* rn[i]: its body has run
          fol,    \* fol[i]: tasks chained behind i that have not been started
          ran,    \* bodies run so far
          pend
vars == <<ki, rm, rn, fol, ran, pend>>
NoObs == [op |-> "none"]
Internal == FALSE /\ UNCHANGED vars
Quiet == pend.op = "none"
Init == /\ ki = [i \in Slots |-> 0] /\ rm = [i \in Slots |-> FALSE] /\ rn = [i \in Slots |-> FALSE]
        /\ fol = [i \in Slots |-> {}] /\ ran = 0 /\ pend = NoObs
Live == Cardinality({i \in Slots : ki[i] # 0})
(* functors of tasks and coroutines live as long as the object; a coroutine made of a function or of a pointer owns none *)
Tokens == Cardinality({i \in Slots : ki[i] \in {1, 4, 5, 7}})
Full == [op |-> pend.op, rc |-> pend.rc, live |-> Live, tok |-> Tokens, ran |-> ran, buf |-> 1, grd |-> 1, room |-> 1]
Pending(e) == pend.op # "none" /\ e = Full
Observe == pend.op # "none" /\ pend' = NoObs /\ UNCHANGED <<ki, rm, rn, fol, ran>>
Ret(x) == [op |-> "ret", rc |-> x]
Min2(a, b) == IF a < b THEN a ELSE b
(* size of the stack one gets: mode 0: as asked up to 1 MiB, 1: never more than 24 KiB, 2: nothing.  0 asks for the default, at least
   64 KiB and at most 64 MiB here *)
Lo(m, st) == LET w == IF st = 0 THEN 65536 ELSE st IN
             CASE m = 0 -> IF w > 1048576 THEN 0 ELSE w
               [] m = 1 -> Min2(w, 24576)
               [] OTHER -> 0
Hi(m, st) == LET w == IF st = 0 THEN 67108864 ELSE st IN
             CASE m = 0 -> IF st # 0 /\ w > 1048576 THEN 0 ELSE w
               [] m = 1 -> Min2(w, 24576)
               [] OTHER -> 0
Never(m, st, pv, ex) == Hi(m, st) <= pv + ex
Always(m, st, pv, ex) == Lo(m, st) >= pv + ex + Slack
Make(i, kd, r) == ki' = [ki EXCEPT ![i] = kd] /\ rm' = [rm EXCEPT ![i] = r] /\ rn' = [rn EXCEPT ![i] = FALSE]
New(i, kd, m, st, pv, ex) ==
  /\ UNCHANGED <<fol, ran>>
  /\ IF Never(m, st, pv, ex) THEN UNCHANGED <<ki, rm, rn>> /\ pend' = Ret(0)
     ELSE IF Always(m, st, pv, ex) THEN Make(i, kd, TRUE) /\ pend' = Ret(1)
     ELSE \E made \in {FALSE, TRUE} :
            IF made THEN Make(i, kd, FALSE) /\ pend' = Ret(1) ELSE UNCHANGED <<ki, rm, rn>> /\ pend' = Ret(0)
(* variants of a raw context: 1..3 are right, the others have something wrong *)
Raw(i, v) == /\ UNCHANGED <<fol, ran>>
             /\ IF v <= 3 THEN Make(i, 7, TRUE) /\ pend' = Ret(0) ELSE UNCHANGED <<ki, rm, rn>> /\ pend' = Ret(0 - 1010)
(* the body of i and of every task behind it *)
RECURSIVE Behind(_)
Behind(i) == {i} \cup UNION {Behind(j) : j \in fol[i]}
Run(i) == /\ rn' = [j \in Slots |-> rn[j] \/ j \in Behind(i)]
          /\ fol' = [j \in Slots |-> IF j \in Behind(i) THEN {} ELSE fol[j]]
          /\ ran' = ran + Cardinality(Behind(i)) /\ UNCHANGED <<ki, rm>> /\ pend' = Ret(0)
(* then(): a task like i; it runs at once when i is over *)
Then(j, i) == /\ ki' = [ki EXCEPT ![j] = 4] /\ rm' = [rm EXCEPT ![j] = TRUE]
              /\ rn' = [rn EXCEPT ![j] = rn[i]] /\ ran' = (IF rn[i] THEN ran + 1 ELSE ran)
              /\ fol' = (IF rn[i] THEN fol ELSE [fol EXCEPT ![i] = @ \cup {j}]) /\ pend' = Ret(1)
Held(i) == \E j \in Slots : i \in fol[j]
(* a task that is dropped before it ran activates what is behind it *)
Drop(i) == LET B == Behind(i) \ {i} IN
           /\ ki' = [ki EXCEPT ![i] = 0] /\ rm' = [rm EXCEPT ![i] = FALSE]
           /\ rn' = [j \in Slots |-> IF j = i THEN FALSE ELSE rn[j] \/ j \in B]
           /\ fol' = [j \in Slots |-> IF j \in Behind(i) THEN {} ELSE fol[j]]
           /\ ran' = ran + Cardinality(B) /\ pend' = Ret(0)
Legal(c) ==
  CASE c[1] = "new" -> ki[c[2]] = 0
    [] c[1] = "raw" -> ki[c[2]] = 0
    [] c[1] = "run" -> rm[c[2]] /\ ~rn[c[2]] /\ ~Held(c[2])
    [] c[1] = "then" -> ki[c[2]] = 0 /\ ki[c[3]] \in 4..6 /\ rm[c[3]]
    [] c[1] = "drop" -> ki[c[2]] # 0 /\ ~Held(c[2])
    [] OTHER -> FALSE
Do(c) == CASE c[1] = "new" -> New(c[2], c[3], c[4], c[5], c[6], c[7])
           [] c[1] = "raw" -> Raw(c[2], c[3])
           [] c[1] = "run" -> Run(c[2])
           [] c[1] = "then" -> Then(c[2], c[3])
           [] c[1] = "drop" -> Drop(c[2])
AllCmds == {<<"new", i, kd, m, st, pv, ex>> : i \in Slots, kd \in Kinds, m \in Modes, st \in Stacks, pv \in Privs, ex \in Extras}
  \cup {<<"raw", i, v>> : i \in Slots, v \in Raws} \cup {<<"run", i>> : i \in Slots} \cup {<<"drop", i>> : i \in Slots}
  \cup (IF F("then") THEN {<<"then", i, j>> : i \in Slots, j \in Slots} ELSE {})
Ok(c) == Legal(c) /\ (c[1] \in {"new", "raw", "then"} => \A t \in 1..(c[2] - 1) : ki[t] # 0)
         /\ ((c[1] = "new" /\ c[3] > 3) => c[7] = 0) /\ ran < 4
Cmds == {c \in AllCmds : Ok(c)}
Next == \/ (Quiet /\ \E c \in Cmds : Do(c)) \/ Observe
-----------------------------------------------------------------------------
FollowersAreTasks == \A i \in Slots : fol[i] # {} => (ki[i] \in 4..6 /\ ~rn[i] /\ \A j \in fol[i] : ki[j] \in 4..6 /\ ~rn[j])
RunnableOnly == \A i \in Slots : rn[i] => rm[i]
EmptyIsClean == \A i \in Slots : ki[i] = 0 => (~rm[i] /\ ~rn[i] /\ fol[i] = {})
OneLeader == \A i, j \in Slots : i # j => fol[i] \cap fol[j] = {}
====
