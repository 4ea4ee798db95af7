---- MODULE IdAlg ----
(* The way identifiers are made (U01): a shared word packs the second it was last renewed in and a sequence of SB bits; every
   thread takes blocks of 2^CB identifiers from it with compare and swap, and waits for another second when the sequence is used up.
   The clock never goes backwards, but may stand still or jump at any moment, also between two readings. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS T, SB, CB, Max, K
Thr == 1..T
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 2 * Pow(n - 1)
S == Pow(SB)
C == Pow(CB)
VARIABLES clock, word, pc, res, now, base, inner, ids, got
vars == <<clock, word, pc, res, now, base, inner, ids, got>>
Init == /\ clock = 1 /\ word = 0 /\ pc = [t \in Thr |-> "idle"] /\ res = [t \in Thr |-> 0] /\ now = [t \in Thr |-> 0]
        /\ base = [t \in Thr |-> 0] /\ inner = [t \in Thr |-> 0] /\ ids = {} /\ got = [t \in Thr |-> 0]
Time(w) == w \div S
Tick == clock < Max /\ clock' = clock + 1 /\ UNCHANGED <<word, pc, res, now, base, inner, ids, got>>
Draw(t) == /\ pc[t] = "idle" /\ got[t] < K * C
           /\ IF base[t] = 0 \/ inner[t] >= C
              THEN pc' = [pc EXCEPT ![t] = "load"] /\ UNCHANGED <<inner, ids, got>>
              ELSE pc' = pc /\ ids' = ids \cup {<<base[t] * C + inner[t], t, got[t]>>} /\ inner' = [inner EXCEPT ![t] = @ + 1] /\ got' = [got EXCEPT ![t] = @ + 1]
           /\ UNCHANGED <<clock, word, res, now, base>>
Load(t) == /\ pc[t] = "load" /\ res' = [res EXCEPT ![t] = word]
           /\ pc' = [pc EXCEPT ![t] = IF Time(word) = 0 \/ Time(word) # Time(word + 1) THEN "time" ELSE "cas"]
           /\ now' = [now EXCEPT ![t] = Time(word)]
           /\ UNCHANGED <<clock, word, base, inner, ids, got>>
ReadClock(t) == /\ pc[t] = "time" /\ now' = [now EXCEPT ![t] = clock]
                /\ pc' = [pc EXCEPT ![t] = IF clock = Time(res[t]) THEN "time" ELSE "casnew"]
                /\ UNCHANGED <<clock, word, res, base, inner, ids, got>>
Cas(t) == LET new == IF pc[t] = "cas" THEN res[t] + 1 ELSE now[t] * S IN
          /\ pc[t] \in {"cas", "casnew"}
          /\ IF word = res[t] THEN word' = new /\ base' = [base EXCEPT ![t] = new] /\ inner' = [inner EXCEPT ![t] = 0] /\ pc' = [pc EXCEPT ![t] = "idle"]
             ELSE word' = word /\ base' = base /\ inner' = inner /\ pc' = [pc EXCEPT ![t] = "load"]
          /\ UNCHANGED <<clock, res, now, ids, got>>
Next == Tick \/ \E t \in Thr : Draw(t) \/ Load(t) \/ ReadClock(t) \/ Cas(t)
Total == LET RECURSIVE Sum(_) Sum(n) == IF n = 0 THEN 0 ELSE got[n] + Sum(n - 1) IN Sum(T)
Unique == Cardinality({x[1] : x \in ids}) = Total
NonZero == \A x \in ids : x[1] # 0
Behind == Time(word) <= clock
====
