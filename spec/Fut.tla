---- MODULE Fut ----
(* Futures, pollers and results (U04).
   Pollers 1..P, all of one payload kind PK (number 1 is a future<T>, the others bare poller<T>):
     1..4 trivially copyable payloads of 1, 3, 4 and 12 words, 5 an owned (counted, non-trivial) payload, 6 the same behind a
     shared pointer, 7 void, 8 a result of kind RK.
   Results 1..R of kind RK (success/error types): 1 <1,1>, 2 <3,1>, 3 <1,4>, 4 <4,2> words (kept in place); 5 <1,owned>,
     6 <owned,1>, 7 <owned,owned>, 8 <12,12>, 9 <3,12> words (kept in part behind pointers).
   Values are numbers 1..V; an error value is 100 + v; NONE is a result that is neither success nor error. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS P, R, V, PK, RK, Features
Pls == 1..P
Rss == 1..R
ABSENT == 0 - 1
NONE == 50
NoObs == [op |-> "none"]
VARIABLES pl, rs, pend
vars == <<pl, rs, pend>>
Internal == FALSE /\ UNCHANGED vars
Quiet == pend.op = "none"
Init == pl = [p \in Pls |-> ABSENT] /\ rs = [r \in Rss |-> ABSENT] /\ pend = NoObs

Err(x) == x > 100
\* owned payload objects inside a result / a poller
ROwned(x) == IF x \in {ABSENT, 0, NONE} THEN 0 ELSE IF RK = 7 \/ (RK = 5 /\ Err(x)) \/ (RK = 6 /\ ~Err(x)) THEN 1 ELSE 0
POwned(x) == IF x \in {ABSENT, 0} THEN 0 ELSE IF PK \in {5, 6} THEN 1 ELSE IF PK = 8 THEN ROwned(x) ELSE 0
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Live == Sum([p \in Pls |-> POwned(pl[p])], Pls) + Sum([r \in Rss |-> ROwned(rs[r])], Rss)
Full(q) == [op |-> q.op, rc |-> q.rc, pl |-> pl, rs |-> rs, live |-> Live]
Pending(e) == pend.op # "none" /\ e = Full(pend)
Observe == pend.op # "none" /\ pend' = NoObs /\ UNCHANGED <<pl, rs>>

Trivial == RK <= 4
\* a result that was moved from
Left(x) == IF Trivial THEN x ELSE NONE
X(v) == IF PK = 7 THEN 1 ELSE v
Upd(a, b, rc) == pl' = a /\ rs' = b /\ pend' = [op |-> "ret", rc |-> rc]
SetP(p, x) == Upd([pl EXCEPT ![p] = x], rs, 0)
SetR(r, x) == Upd(pl, [rs EXCEPT ![r] = x], 0)
ExP(p) == pl[p] # ABSENT
ExR(r) == rs[r] # ABSENT
Legal(c) ==
  CASE c[1] = "new" -> ~ExP(c[2])
    [] c[1] \in {"newv", "newp"} -> ~ExP(c[2]) /\ (c[3] > 100 => PK = 8) /\ c[2] # 1
    [] c[1] = "newm" -> ~ExP(c[2]) /\ ExP(c[3]) /\ c[2] # 1
    [] c[1] \in {"put", "putp"} -> ExP(c[2]) /\ (c[3] > 100 => PK = 8)
    [] c[1] = "emp" -> ~ExP(c[2]) /\ PK \in {2, 3, 4, 5, 6} /\ c[2] # 1
    [] c[1] = "mass" -> ExP(c[2]) /\ ExP(c[3]) /\ c[2] # c[3]
    [] c[1] = "swap" -> ExP(c[2]) /\ ExP(c[3])
    [] c[1] = "mut" -> ExP(c[2]) /\ pl[c[2]] # 0 /\ PK # 7 /\ pl[c[2]] # NONE
    [] c[1] \in {"putn", "reset", "del", "take"} -> ExP(c[2]) /\ (c[1] = "take" => PK # 8)
    [] c[1] = "rnew" -> ~ExR(c[2]) /\ ~Trivial
    [] c[1] \in {"rset", "rmake"} -> TRUE
    [] c[1] = "rmctor" -> ~ExR(c[2]) /\ ExR(c[3])
    [] c[1] = "rmass" -> ExR(c[2]) /\ ExR(c[3]) /\ c[2] # c[3]
    [] c[1] \in {"rcctor", "rcass"} -> Trivial /\ ExR(c[3]) /\ (c[1] = "rcass" <=> ExR(c[2]))
    [] c[1] = "rswap" -> ExR(c[2]) /\ ExR(c[3])
    [] c[1] = "rmut" -> ExR(c[2]) /\ rs[c[2]] # NONE
    [] c[1] = "rdel" -> ExR(c[2])
    [] c[1] = "rput" -> PK = 8 /\ ExP(c[2]) /\ ExR(c[3])
    [] c[1] = "rtake" -> PK = 8 /\ ExR(c[2]) /\ ExP(c[3]) /\ pl[c[3]] # 0
    [] OTHER -> FALSE
Mut(x, v) == IF Err(x) THEN 100 + v ELSE v
Do(c) ==
  CASE c[1] = "new" -> SetP(c[2], 0)
    [] c[1] \in {"newv", "newp", "put", "putp", "emp"} -> SetP(c[2], X(c[3]))
    [] c[1] \in {"newm", "mass"} -> Upd([pl EXCEPT ![c[2]] = pl[c[3]], ![c[3]] = 0], rs, 0)
    [] c[1] = "swap" -> Upd([pl EXCEPT ![c[2]] = pl[c[3]], ![c[3]] = pl[c[2]]], rs, 0)
    [] c[1] = "mut" -> SetP(c[2], Mut(pl[c[2]], c[3]))
    [] c[1] \in {"putn", "reset"} -> SetP(c[2], 0)
    [] c[1] = "take" -> Upd([pl EXCEPT ![c[2]] = 0], rs, pl[c[2]])
    [] c[1] = "del" -> SetP(c[2], ABSENT)
    [] c[1] = "rnew" -> SetR(c[2], NONE)
    [] c[1] \in {"rset", "rmake"} -> SetR(c[2], c[3])
    [] c[1] \in {"rmctor", "rmass"} -> Upd(pl, [rs EXCEPT ![c[2]] = rs[c[3]], ![c[3]] = Left(rs[c[3]])], 0)
    [] c[1] \in {"rcctor", "rcass"} -> SetR(c[2], rs[c[3]])
    [] c[1] = "rswap" -> Upd(pl, [rs EXCEPT ![c[2]] = rs[c[3]], ![c[3]] = rs[c[2]]], 0)
    [] c[1] = "rmut" -> SetR(c[2], Mut(rs[c[2]], c[3]))
    [] c[1] = "rdel" -> SetR(c[2], ABSENT)
    [] c[1] = "rput" -> Upd([pl EXCEPT ![c[2]] = rs[c[3]]], [rs EXCEPT ![c[3]] = Left(rs[c[3]])], 0)
    [] c[1] = "rtake" -> Upd([pl EXCEPT ![c[3]] = Left(pl[c[3]])], [rs EXCEPT ![c[2]] = pl[c[3]]], 0)
F(x) == x \in Features
Vals == 1..V
Both == Vals \cup {100 + v : v \in Vals}
AllCmds ==
  (IF F("poll") THEN {<<o, p>> : o \in {"new", "putn", "reset", "del", "take"}, p \in Pls}
     \cup {<<o, p, v>> : o \in {"newv", "newp", "put", "putp", "emp"}, p \in Pls, v \in IF PK = 8 THEN Both ELSE Vals}
     \cup {<<o, p, q>> : o \in {"newm", "mass", "swap"}, p \in Pls, q \in Pls} \cup {<<"mut", p, v>> : p \in Pls, v \in Vals} ELSE {})
  \cup (IF F("res") THEN {<<o, r>> : o \in {"rnew", "rdel"}, r \in Rss} \cup {<<o, r, v>> : o \in {"rset", "rmake"}, r \in Rss, v \in Both}
     \cup {<<o, r, s>> : o \in {"rmctor", "rmass", "rcctor", "rcass", "rswap"}, r \in Rss, s \in Rss} \cup {<<"rmut", r, v>> : r \in Rss, v \in Vals} ELSE {})
  \cup (IF F("poll") /\ F("res") THEN {<<"rput", p, r>> : p \in Pls, r \in Rss} \cup {<<"rtake", r, p>> : p \in Pls, r \in Rss} ELSE {})
Ok(c) == Legal(c)
Cmds == {c \in AllCmds : Ok(c)}
Next == \/ (Quiet /\ \E c \in Cmds : Do(c)) \/ Observe
-----------------------------------------------------------------------------
(* values only come from commands that bring one in: no other step makes, loses or changes one *)
All(a, b) == [x \in Both |-> Cardinality({p \in Pls : a[p] = x}) + Cardinality({r \in Rss : b[r] = x})]
OnlyMoved == [][(pend' # NoObs /\ \A p \in Pls : (pl[p] = ABSENT) = (pl'[p] = ABSENT)) /\ (\A r \in Rss : (rs[r] = ABSENT) = (rs'[r] = ABSENT)) =>
                \A x \in Both : All(pl', rs')[x] <= All(pl, rs)[x] + 1]_vars
TypeOK == (\A p \in Pls : pl[p] \in {ABSENT, 0, NONE} \cup Both) /\ (\A r \in Rss : rs[r] \in {ABSENT, NONE} \cup Both) /\ (Trivial => \A r \in Rss : rs[r] # NONE)
====
