---- MODULE Alloc ----
(* Stack allocators (K04): mmap-based (kind 1), malloc-based (kind 2) and caller-supplied memory (kind 3, several
   instances and blocks).  What is fixed here is the contract, not the rounding: a stack is any size that the contract allows. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS S,        \* stack slots
          M,        \* caller-memory allocator objects
          Blocks,   \* sizes of the caller's memory blocks are BlockSize(1..Blocks)
          Reqs,     \* requested sizes (bytes); 7 and 8 stand for sizes no machine can satisfy
          MinSz, MaxSz,  \* stack_traits; MaxSz = 0: unbounded
          Page,
          Features
Slots == 1..S
Mems == 1..M
NoObs == [op |-> "none"]
VARIABLES own,   \* own[s]: 0 empty, 1 mmap, 2 malloc, 3 caller memory
          blk,   \* blk[s]: block the stack lies in (kind 3)
          mst,   \* mst[m]: -1 no object, 0 no block, b attached to block b
          musd,  \* musd[m]: the allocator regards its block as used
          pend
vars == <<own, blk, mst, musd, pend>>
Internal == FALSE /\ UNCHANGED vars
Quiet == pend.op = "none"
BlockSize(b) == <<65536, 30000, 20480, 20000, 10000, 131073>>[b]
Impossible == {7, 8}
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
(* the least usable size a caller may rely on *)
Least(r) == LET w == Max2(r, MinSz) IN IF MaxSz = 0 THEN w ELSE Min2(w, MaxSz)
FloorPage(x) == (x \div Page) * Page

Init == own = [s \in Slots |-> 0] /\ blk = [s \in Slots |-> 0] /\ mst = [m \in Mems |-> 0 - 1] /\ musd = [m \in Mems |-> 0] /\ pend = NoObs

Full(p) == [op |-> p.op, ok |-> p.ok, al |-> 1, dis |-> 1, rel |-> 1, mem |-> 1, traits |-> <<MinSz, MaxSz, Page>>]
Pending(e) == /\ pend.op # "none" /\ [x \in (DOMAIN e) \ {"sz", "dsz"} |-> e[x]] = Full(pend)
              /\ e.sz >= pend.lo /\ (pend.hi = 0 \/ e.sz <= pend.hi)
              /\ e.dsz >= MinSz /\ (MaxSz # 0 => e.dsz <= MaxSz)
Observe == pend.op # "none" /\ pend' = NoObs /\ UNCHANGED <<own, blk, mst, musd>>
Ret(k, lo, hi) == [op |-> "ret", ok |-> k, lo |-> lo, hi |-> hi]
R0 == Ret(0, 0, 0)

(* allocate into slot s from kind k (3: object m) *)
Get(s, k, m, r) ==
  IF k \in {1, 2}
  THEN IF r \in Impossible /\ MaxSz = 0
       THEN UNCHANGED <<own, blk, mst, musd>> /\ pend' = R0
       ELSE /\ own' = [own EXCEPT ![s] = k] /\ UNCHANGED <<blk, mst, musd>>
            /\ pend' = Ret(1, IF r \in Impossible THEN MaxSz ELSE Least(r), 0)
  ELSE LET b == mst[m] IN
       IF b <= 0 \/ musd[m] = 1 \/ FloorPage(IF b <= 0 THEN 0 ELSE BlockSize(b)) < MinSz
       THEN UNCHANGED <<own, blk, mst, musd>> /\ pend' = R0
       ELSE /\ own' = [own EXCEPT ![s] = 3] /\ blk' = [blk EXCEPT ![s] = b] /\ musd' = [musd EXCEPT ![m] = 1] /\ UNCHANGED mst
            /\ pend' = Ret(1, IF r \in Impossible THEN (IF MaxSz = 0 THEN FloorPage(BlockSize(b)) ELSE Min2(MaxSz, FloorPage(BlockSize(b))))
                              ELSE Min2(Least(r), FloorPage(BlockSize(b))), BlockSize(b))
(* the object to which a caller-memory stack has to be returned *)
Home(s) == {m \in Mems : mst[m] = blk[s] /\ musd[m] = 1}
Put(s) == /\ own' = [own EXCEPT ![s] = 0] /\ blk' = [blk EXCEPT ![s] = 0] /\ UNCHANGED mst
          /\ musd' = (IF own[s] = 3 THEN [m \in Mems |-> IF m \in Home(s) THEN 0 ELSE musd[m]] ELSE musd)
          /\ pend' = R0
(* give up a stack whose allocator object no longer knows the block *)
Forget(s) == /\ own' = [own EXCEPT ![s] = 0] /\ blk' = [blk EXCEPT ![s] = 0] /\ UNCHANGED <<mst, musd>> /\ pend' = R0
MNew(m, b) == /\ mst' = [mst EXCEPT ![m] = b] /\ musd' = [musd EXCEPT ![m] = 0] /\ UNCHANGED <<own, blk>> /\ pend' = R0
MAttach(m, b) == MNew(m, b)
Swapped(a, b) == /\ mst' = [mst EXCEPT ![a] = mst[b], ![b] = mst[a]] /\ musd' = [musd EXCEPT ![a] = musd[b], ![b] = musd[a]]
(* copying or moving hands the block over, unless it is in use *)
MFrom(m, o) == /\ IF musd[o] = 1 THEN mst' = [mst EXCEPT ![m] = 0] /\ musd' = [musd EXCEPT ![m] = 0]
                  ELSE mst' = [mst EXCEPT ![m] = mst[o], ![o] = 0] /\ musd' = [musd EXCEPT ![m] = 0]
               /\ UNCHANGED <<own, blk>> /\ pend' = R0
MAssign(m, o) == /\ (IF musd[o] = 1 \/ m = o THEN UNCHANGED <<mst, musd>> ELSE Swapped(m, o)) /\ UNCHANGED <<own, blk>> /\ pend' = R0
MSwap(m, o) == Swapped(m, o) /\ UNCHANGED <<own, blk>> /\ pend' = R0
MDel(m) == mst' = [mst EXCEPT ![m] = 0 - 1] /\ musd' = [musd EXCEPT ![m] = 0] /\ UNCHANGED <<own, blk>> /\ pend' = R0

BlockFree(b) == (\A m \in Mems : mst[m] # b) /\ (\A s \in Slots : blk[s] # b)
Obj(m) == mst[m] >= 0
Legal(c) ==
  CASE c[1] = "get" -> own[c[2]] = 0 /\ (c[3] = 3 => Obj(c[4]))
    [] c[1] = "put" -> own[c[2]] # 0 /\ (own[c[2]] = 3 => Home(c[2]) # {})
    [] c[1] = "forget" -> own[c[2]] = 3 /\ Home(c[2]) = {}
    [] c[1] = "mnew" -> ~Obj(c[2]) /\ (c[3] # 0 => BlockFree(c[3]))
    [] c[1] = "mattach" -> Obj(c[2]) /\ BlockFree(c[3])
    [] c[1] \in {"mcopy", "mmove"} -> ~Obj(c[2]) /\ Obj(c[3])
    [] c[1] \in {"mset", "mmset", "mswap"} -> Obj(c[2]) /\ Obj(c[3])
    [] c[1] = "mdel" -> Obj(c[2])
    [] OTHER -> FALSE
Do(c) == CASE c[1] = "get" -> Get(c[2], c[3], c[4], c[5])
           [] c[1] = "put" -> Put(c[2])
           [] c[1] = "forget" -> Forget(c[2])
           [] c[1] = "mnew" -> MNew(c[2], c[3])
           [] c[1] = "mattach" -> MAttach(c[2], c[3])
           [] c[1] \in {"mcopy", "mmove"} -> MFrom(c[2], c[3])
           [] c[1] \in {"mset", "mmset"} -> MAssign(c[2], c[3])
           [] c[1] = "mswap" -> MSwap(c[2], c[3])
           [] c[1] = "mdel" -> MDel(c[2])
F(x) == x \in Features
AllCmds == (IF F("sys") THEN {<<"get", s, k, 0, r>> : s \in Slots, k \in {1, 2}, r \in Reqs} ELSE {})
  \cup (IF F("mem") THEN {<<"get", s, 3, m, r>> : s \in Slots, m \in Mems, r \in Reqs} ELSE {})
  \cup {<<"put", s>> : s \in Slots} \cup {<<"forget", s>> : s \in Slots}
  \cup (IF F("mem") THEN {<<"mnew", m, b>> : m \in Mems, b \in 0..Blocks} \cup {<<"mattach", m, b>> : m \in Mems, b \in 1..Blocks}
                         \cup {<<o, m, n>> : o \in {"mcopy", "mmove", "mset", "mmset", "mswap"}, m \in Mems, n \in Mems}
                         \cup {<<"mdel", m>> : m \in Mems} ELSE {})
Ok(c) == Legal(c) /\ (c[1] = "get" => \A t \in 1..(c[2] - 1) : own[t] # 0)
Cmds == {c \in AllCmds : Ok(c)}
Next == \/ (Quiet /\ \E c \in Cmds : Do(c)) \/ Observe
-----------------------------------------------------------------------------
(* a caller's block carries at most one stack *)
BlockOnce == \A s, t \in Slots : (s # t /\ blk[s] # 0) => blk[s] # blk[t]
OneHome == \A m, n \in Mems : (m # n /\ mst[m] > 0) => mst[m] # mst[n]
UsedHasStack == \A m \in Mems : musd[m] = 1 => \E s \in Slots : blk[s] = mst[m]
====
