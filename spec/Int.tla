---- MODULE Int ----
(* One integer of the kinds used for counters and states of the library (U05), atomic or plain: types 1-4 have one byte and wrap
   around, 5-12 are wider and stay within the same numbers, 13 and 14 are enumerations, which only store and compare.  Values
   are -128..127: those of unsigned types stand for what is congruent to them.  Arguments of commands are 0..255 likewise. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ty, Args, Forms
Wide == Ty > 4
En == Ty > 12
NoObs == [op |-> "none"]
VARIABLES ex, x, pend
vars == <<ex, x, pend>>
Internal == FALSE /\ UNCHANGED vars
Quiet == pend.op = "none"
Init == ex = 0 /\ x = 0 /\ pend = NoObs
Norm(v) == ((v + 1152) % 256) - 128
V(a) == Norm(a)
Bit(v, i) == ((v + 256) \div (2 ^ i)) % 2
RECURSIVE Sum(_, _)
Sum(b, i) == IF i > 7 THEN 0 ELSE (b[i] * (2 ^ i)) + Sum(b, i + 1)
Bits(u, v, tab) == Norm(Sum([i \in 0..7 |-> tab[Bit(u, i) + Bit(v, i)]], 0))
And(u, v) == Bits(u, v, [n \in 0..2 |-> IF n = 2 THEN 1 ELSE 0])
Or(u, v) == Bits(u, v, [n \in 0..2 |-> IF n > 0 THEN 1 ELSE 0])
Xor(u, v) == Bits(u, v, [n \in 0..2 |-> IF n = 1 THEN 1 ELSE 0])
Raw(op, v, a) ==
  CASE op \in {"add"} -> v + V(a)
    [] op \in {"sub"} -> v - V(a)
    [] op \in {"ppre", "ppost"} -> v + 1
    [] op \in {"mpre", "mpost"} -> v - 1
    [] op = "and" -> And(v, V(a))
    [] op = "or" -> Or(v, V(a))
    [] op = "xor" -> Xor(v, V(a))
    [] op \in {"st", "ass", "exch"} -> V(a)
    [] OTHER -> v
Ret(v, rc, e) == x' = v /\ ex' = 1 /\ pend' = [op |-> "ret", rc |-> rc, e |-> e, x |-> v]
Pending(e) == pend.op # "none" /\ e = pend
Observe == pend.op # "none" /\ pend' = NoObs /\ UNCHANGED <<ex, x>>
Calc == {"add", "sub", "and", "or", "xor", "ppre", "ppost", "mpre", "mpost"}
Legal(c) ==
  CASE c[1] = "new" -> ex = 0
    [] c[1] = "del" -> ex = 1
    [] OTHER -> ex = 1 /\ (En => c[1] \notin Calc) /\ (Wide => Raw(c[1], x, c[3]) \in (0 - 128)..127)
Do(c) == LET o == c[1] a == c[3] n == Norm(Raw(o, x, a)) IN
  CASE o = "new" -> Ret(IF c[2] = 0 THEN 0 ELSE V(a), 0, 0)
    [] o = "del" -> ex' = 0 /\ x' = 0 /\ pend' = [op |-> "ret", rc |-> 0, e |-> 0, x |-> 0]
    [] o = "st" -> Ret(n, 0, 0)
    [] o \in {"ld", "conv"} -> Ret(x, x, 0)
    [] o \in {"ass", "ppre", "mpre"} -> Ret(n, n, 0)
    [] o \in {"exch", "add", "sub", "and", "or", "xor", "ppost", "mpost"} -> Ret(n, x, 0)
    [] o \in {"casw", "cass"} -> IF x = V(a) THEN Ret(V(c[4]), 1, V(a)) \/ (o = "casw" /\ Ret(x, 0, x)) ELSE Ret(x, 0, x)
AllCmds == {<<"new", 0, 0>>} \cup {<<"new", 1, a>> : a \in Args}
               \cup {<<o, k, a>> : o \in {"st", "ass", "exch", "add", "sub", "and", "or", "xor"}, k \in Forms, a \in Args}
               \cup {<<o, k, 0>> : o \in {"ld", "conv", "ppre", "ppost", "mpre", "mpost"}, k \in Forms}
               \cup {<<o, k, a, d>> : o \in {"casw", "cass"}, k \in Forms, a \in Args, d \in Args}
               \cup {<<"del", 0, 0>>}
Ok(c) == Legal(c)
Cmds == {c \in AllCmds : Ok(c)}
Next == (Quiet /\ \E c \in Cmds : Do(c)) \/ Observe
InRange == x \in (0 - 128)..127
\* laws of the operations
Laws == /\ \A a \in Args : Xor(Xor(x, V(a)), V(a)) = x /\ Norm(Or(x, V(a)) + And(x, V(a))) = Norm(x + V(a))
        /\ And(x, x) = x /\ Or(x, 0) = x /\ Xor(x, x) = 0
====
