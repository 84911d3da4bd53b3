------------------------------- MODULE MC_Own -------------------------------
(***************************************************************************)
(* Design: an object holds the address of a heap block that it alone owns.    *)
(* Copying allocates, assignment releases the old block and allocates a new    *)
(* one (nothing happens for self-assignment), moving hands the block over, an  *)
(* operator allocates and releases a block for its result.  TLC checks that    *)
(* live objects and allocated blocks correspond one to one (no leak, no         *)
(* dangling pointer, no shared block) and that the blocks carry the values of   *)
(* Own; every transition is emitted for replay with each type of the library.  *)
(***************************************************************************)
EXTENDS Own, TLC, Json
CONSTANTS N, Vals
VARIABLES ptr, heap          \* ptr: object -> block; heap: allocated block -> value
mv == <<vars, ptr, heap>>
Fresh == CHOOSE b \in 1..(N + 2) : b \notin DOMAIN heap
MInit == Init /\ ptr = None /\ heap = None
New(k, v) == Do("new", <<k, 1, v>>, <<>>) /\ heap' = Put(heap, Fresh, v) /\ ptr' = Put(ptr, k, Fresh)
Copy(k, j) == Do("copy", <<k, j>>, <<>>) /\ heap' = Put(heap, Fresh, heap[ptr[j]]) /\ ptr' = Put(ptr, k, Fresh)
Asg(k, j) == Do("asg", <<k, j>>, <<>>) /\ IF k = j THEN UNCHANGED <<ptr, heap>>
             ELSE heap' = Put(Drop(heap, ptr[k]), ptr[k], heap[ptr[j]]) /\ UNCHANGED ptr
MovC(k, j) == Do("movc", <<k, j>>, <<>>) /\ ptr' = Put(Drop(ptr, j), k, ptr[j]) /\ UNCHANGED heap
MovA(k, j) == Do("mova", <<k, j>>, <<>>) /\ ptr' = Put(Drop(ptr, j), k, ptr[j]) /\ heap' = Drop(heap, ptr[k])
Mut(k, v) == Do("mut", <<k, v>>, <<>>) /\ heap' = [heap EXCEPT ![ptr[k]] = v] /\ UNCHANGED ptr
Tmp(k, j) == Do("tmp", <<k, j>>, <<>>) /\ UNCHANGED <<ptr, heap>>
Use(k) == Do("use", <<k>>, <<>>) /\ last'.r = <<heap[ptr[k]]>> /\ UNCHANGED <<ptr, heap>>
Del(k) == Do("del", <<k>>, <<>>) /\ heap' = Drop(heap, ptr[k]) /\ ptr' = Drop(ptr, k)
Live == Do("live", <<>>, <<>>) /\ UNCHANGED <<ptr, heap>>
S == 1..N
MNext == \/ \E k \in S, v \in Vals : (~O(k) /\ New(k, v)) \/ (O(k) /\ Mut(k, v))
         \/ \E k, j \in S : O(j) /\ ((~O(k) /\ (Copy(k, j) \/ MovC(k, j))) \/ (O(k) /\ (Asg(k, j) \/ Tmp(k, j))) \/ (O(k) /\ k # j /\ MovA(k, j)))
         \/ \E k \in S : O(k) /\ (Use(k) \/ Del(k))
         \/ DOMAIN objs = {} /\ Live
MSpec == MInit /\ [][MNext]_mv
Owned == /\ DOMAIN ptr = DOMAIN objs
         /\ \A k, j \in DOMAIN ptr : k # j => ptr[k] # ptr[j]                 \* no block has two owners
         /\ {ptr[k] : k \in DOMAIN ptr} = DOMAIN heap                         \* no dangling pointer, no leaked block
         /\ \A k \in DOMAIN ptr : heap[ptr[k]] = objs[k][2]
Key(f) == [k \in S |-> IF k \in DOMAIN f THEN f[k][2] ELSE -1]
Emit == PrintT(ToJson([s |-> Key(objs), t |-> Key(objs'), e |-> last']))
View == <<objs, ptr, heap>>
=============================================================================
