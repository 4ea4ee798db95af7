---- MODULE Guard ----
(* Spin locks and lock guards, one thread (U02).  Locks 1..L; guards 1..G.  A guard kind fixes the actions it uses:
   1 lock/unlock, 2 try_lock/unlock, 3 try_lock/try_unlock, 4 read_lock/read_unlock, 5 write_lock/write_unlock. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS L, G, Kinds, Features
Locks == 1..L
Guards == 1..G
NoObs == [op |-> "none"]
VARIABLES held,  \* held[l]: 0 free, 1 taken exclusively
          rd,    \* rd[l]: readers (only through kind 4)
          gk,    \* gk[g]: kind of the guard, 0 no guard
          gl,    \* gl[g]: lock the guard owns, 0 none
          pend
vars == <<held, rd, gk, gl, pend>>
Internal == FALSE /\ UNCHANGED vars
Quiet == pend.op = "none"
Init == held = [l \in Locks |-> 0] /\ rd = [l \in Locks |-> 0] /\ gk = [g \in Guards |-> 0] /\ gl = [g \in Guards |-> 0] /\ pend = NoObs
Full(p) == [op |-> p.op, rc |-> p.rc, locked |-> held, readers |-> rd, av |-> [g \in Guards |-> IF gk[g] = 0 THEN 0 - 1 ELSE IF gl[g] = 0 THEN 0 ELSE 1]]
Pending(e) == pend.op # "none" /\ e = Full(pend)
Observe == pend.op # "none" /\ pend' = NoObs /\ UNCHANGED <<held, rd, gk, gl>>
Ret(r) == pend' = [op |-> "ret", rc |-> r]
Keep == UNCHANGED <<held, rd, gk, gl>>

Lock(l) == held' = [held EXCEPT ![l] = 1] /\ UNCHANGED <<rd, gk, gl>> /\ Ret(0)
TryLock(l) == IF held[l] = 1 THEN Keep /\ Ret(0) ELSE held' = [held EXCEPT ![l] = 1] /\ UNCHANGED <<rd, gk, gl>> /\ Ret(1)
Unlock(l) == held' = [held EXCEPT ![l] = 0] /\ UNCHANGED <<rd, gk, gl>> /\ Ret(0)
TryUnlock(l) == IF held[l] = 0 THEN Keep /\ Ret(0) ELSE held' = [held EXCEPT ![l] = 0] /\ UNCHANGED <<rd, gk, gl>> /\ Ret(1)

(* effect of guard g giving up what it owns *)
RelH(g) == IF gl[g] # 0 /\ gk[g] # 4 THEN [held EXCEPT ![gl[g]] = 0] ELSE held
RelR(g) == IF gl[g] # 0 /\ gk[g] = 4 THEN [rd EXCEPT ![gl[g]] = @ - 1] ELSE rd

GNew(g, k, l) ==
  /\ gk' = [gk EXCEPT ![g] = k]
  /\ IF k = 4 THEN rd' = [rd EXCEPT ![l] = @ + 1] /\ gl' = [gl EXCEPT ![g] = l] /\ UNCHANGED held
     ELSE IF k \in {2, 3} /\ held[l] = 1 THEN gl' = [gl EXCEPT ![g] = 0] /\ UNCHANGED <<held, rd>>
     ELSE held' = [held EXCEPT ![l] = 1] /\ gl' = [gl EXCEPT ![g] = l] /\ UNCHANGED rd
  /\ Ret(0)
GDel(g) == held' = RelH(g) /\ rd' = RelR(g) /\ gk' = [gk EXCEPT ![g] = 0] /\ gl' = [gl EXCEPT ![g] = 0] /\ Ret(0)
GReset(g) == held' = RelH(g) /\ rd' = RelR(g) /\ gl' = [gl EXCEPT ![g] = 0] /\ UNCHANGED gk /\ Ret(0)
GMove(g, h) == gk' = [gk EXCEPT ![g] = gk[h]] /\ gl' = [gl EXCEPT ![g] = gl[h], ![h] = 0] /\ UNCHANGED <<held, rd>> /\ Ret(0)
GAssign(g, h) == IF g = h THEN Keep /\ Ret(0)
                 ELSE held' = RelH(g) /\ rd' = RelR(g) /\ gl' = [gl EXCEPT ![g] = gl[h], ![h] = 0] /\ UNCHANGED gk /\ Ret(0)

Legal(c) ==
  CASE c[1] = "lock" -> held[c[2]] = 0 /\ rd[c[2]] = 0
    [] c[1] = "try" -> rd[c[2]] = 0
    [] c[1] \in {"unlock", "tryun"} -> \A g \in Guards : gl[g] # c[2]   \* never release behind a guard's back
    [] c[1] = "gnew" -> /\ gk[c[2]] = 0
                        /\ CASE c[3] \in {1, 5} -> held[c[4]] = 0 /\ rd[c[4]] = 0
                             [] c[3] = 4 -> held[c[4]] = 0
                             [] OTHER -> rd[c[4]] = 0
    [] c[1] \in {"gdel", "greset"} -> gk[c[2]] # 0
    [] c[1] = "gmove" -> gk[c[2]] = 0 /\ gk[c[3]] # 0
    [] c[1] = "gassign" -> gk[c[2]] # 0 /\ gk[c[3]] = gk[c[2]]
    [] OTHER -> FALSE
Do(c) == CASE c[1] = "lock" -> Lock(c[2]) [] c[1] = "try" -> TryLock(c[2]) [] c[1] = "unlock" -> Unlock(c[2]) [] c[1] = "tryun" -> TryUnlock(c[2])
           [] c[1] = "gnew" -> GNew(c[2], c[3], c[4]) [] c[1] = "gdel" -> GDel(c[2]) [] c[1] = "greset" -> GReset(c[2])
           [] c[1] = "gmove" -> GMove(c[2], c[3]) [] c[1] = "gassign" -> GAssign(c[2], c[3])
AllCmds == (IF "raw" \in Features THEN {<<o, l>> : o \in {"lock", "try", "unlock", "tryun"}, l \in Locks} ELSE {})
  \cup {<<"gnew", g, k, l>> : g \in Guards, k \in Kinds, l \in Locks} \cup {<<o, g>> : o \in {"gdel", "greset"}, g \in Guards}
  \cup {<<o, g, h>> : o \in {"gmove", "gassign"}, g \in Guards, h \in Guards}
Ok(c) == Legal(c)
Cmds == {c \in AllCmds : Ok(c)}
Next == \/ (Quiet /\ \E c \in Cmds : Do(c)) \/ Observe
-----------------------------------------------------------------------------
OwnersExclude == \A g, h \in Guards : (g # h /\ gl[g] # 0 /\ gl[g] = gl[h]) => (gk[g] = 4 /\ gk[h] = 4)
OwnedIsHeld == \A g \in Guards : gl[g] # 0 => (IF gk[g] = 4 THEN rd[gl[g]] > 0 ELSE held[gl[g]] = 1)
ReadersCounted == \A l \in Locks : rd[l] = Cardinality({g \in Guards : gl[g] = l /\ gk[g] = 4})
====
