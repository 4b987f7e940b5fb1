-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* The pool memory resource: which block serves which request, when it     *)
(* goes upstream and for how much, and which options it accepts (C05).     *)
(* Events are those of module Heap.                                        *)
(*                                                                         *)
(* What is left open on purpose: which of several free blocks of a pool is *)
(* used, how much a chunk grows, which suitable cached block is used, and  *)
(* in which order things are returned upstream at the end.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

VARIABLE pool
  (* [o: options, last: block size -> number of blocks in the last chunk,    *)
  (*  chunks: position -> [sz, bs], cached: set of [a, sz, al],              *)
  (*  over: position -> [sz, al], use: id -> [a, bs] where bs is the size of *)
  (*  the pooled block, 0 for others].  A pool's free blocks are those of    *)
  (*  its chunks that are not in use.                                        *)

Opt(c) == [minb |-> c[1], minB |-> c[2], maxb |-> c[3], maxB |-> c[4], small |-> c[5],
           large |-> c[6], al |-> c[7], cache |-> c[8] = 1, sf |-> c[9], af |-> c[10]]
DefaultOpt == Opt(<<16, 1024, 1048576, 1073741824, 16, 1048576, 16, 1, 16, 16>>)

Pow2s == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072,
          262144, 524288, 1048576, 2097152, 4194304, 8388608, 16777216, 33554432, 67108864,
          134217728, 268435456, 536870912, 1073741824}
RoundUp(n) == CHOOSE p \in Pow2s : p >= n /\ \A q \in Pow2s : q >= n => p <= q     \* n <= 2^30

MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

(* Sets of options that do not contradict themselves. *)
ValidOpt(o) ==
  /\ o.small \in Pow2s /\ o.large \in Pow2s /\ o.al \in Pow2s
  /\ o.maxB > 0 /\ o.maxb > 0
  /\ o.minb <= o.maxb /\ o.minB <= o.maxB
  /\ o.small <= o.large /\ o.al <= o.small
  /\ o.large <= o.maxB /\ o.minb <= o.maxB \div o.large         \* minb blocks fit in maxB
  /\ o.maxb >= (o.minB + o.small - 1) \div o.small              \* maxb blocks can make up minB

PoolInit == pool = [o |-> DefaultOpt, last |-> <<>>, chunks |-> <<>>, cached |-> {}, over |-> <<>>, use |-> <<>>]

PoolCreate(ev) ==
  LET o == IF ev.cfg = <<>> THEN DefaultOpt ELSE Opt(ev.cfg) IN
  /\ ev.r = IF ValidOpt(o) THEN "ok" ELSE "inval"
  /\ ev.ups = <<>>
  /\ pool' = [o |-> o, last |-> <<>>, chunks |-> <<>>, cached |-> {}, over |-> <<>>, use |-> <<>>]

Bytes(sz) == IF sz < pool.o.small THEN pool.o.small ELSE sz
Oversized(sz, al) == Bytes(sz) > pool.o.large \/ al > pool.o.al

Suitable(c, bytes, al) ==
  /\ c.sz >= bytes /\ c.al >= al
  /\ c.sz \div bytes < pool.o.sf /\ c.al \div al < pool.o.af
Identical(c, bytes, al) == c.sz = bytes /\ c.al = al /\ pool.o.sf > 1 /\ pool.o.af > 1

(* The number of blocks in a new chunk of blocks of size bs. *)
ChunkOK(n, bs) ==
  LET o == pool.o
      low == MaxOf({1, o.minb, o.minB \div bs} \cup (IF bs \in DOMAIN pool.last THEN {pool.last[bs]} ELSE {}))
  IN n >= low /\ n <= o.maxb /\ n <= o.maxB \div bs

UsedBlocks(bs) == {pool.use[i].a : i \in {j \in DOMAIN pool.use : pool.use[j].bs = bs}}
NBlocks(bs) == FoldSet(LAMBDA p, acc : IF pool.chunks[p].bs = bs THEN pool.chunks[p].sz \div bs + acc ELSE acc, 0, DOMAIN pool.chunks)
HasFree(bs) == NBlocks(bs) > Cardinality(UsedBlocks(bs))
BlockIn(a, p, sz, bs) == a >= p /\ a - p <= sz - bs /\ (a - p) % bs = 0
IsFree(a, bs) == /\ \E p \in DOMAIN pool.chunks : pool.chunks[p].bs = bs /\ BlockIn(a, p, pool.chunks[p].sz, bs)
                 /\ a \notin UsedBlocks(bs)

(* A request for a pooled block. *)
PoolServe(ev, bs) ==
  IF HasFree(bs)
  THEN /\ ev.ups = <<>> /\ ev.r = "ok" /\ IsFree(ev.a, bs)
       /\ pool' = [pool EXCEPT !.use = (ev.id :> [a |-> ev.a, bs |-> bs]) @@ @]
  ELSE /\ Len(ev.ups) = 1
       /\ LET u == ev.ups[1]  n == u.sz \div bs IN
          /\ u.k = "a" /\ u.al >= pool.o.al /\ u.sz % bs = 0 /\ ChunkOK(n, bs)
          /\ IF u.r = "ok"
             THEN /\ ev.r = "ok" /\ BlockIn(ev.a, u.a, u.sz, bs)
                  /\ pool' = [pool EXCEPT !.last = (bs :> n) @@ @,
                                          !.chunks = (u.a :> [sz |-> u.sz, bs |-> bs]) @@ @,
                                          !.use = (ev.id :> [a |-> ev.a, bs |-> bs]) @@ @]
             ELSE ev.r = "bad" /\ UNCHANGED pool

(* A request that is too large, or aligned too strictly, for the pools. *)
OverServe(ev, bytes) ==
  IF ev.ups = <<>>
  THEN /\ pool.o.cache /\ ev.r = "ok"
       /\ \E c \in pool.cached :
            /\ c.a = ev.a /\ Suitable(c, bytes, ev.al)
            /\ pool' = [pool EXCEPT !.cached = @ \ {c}, !.over = (ev.a :> [sz |-> c.sz, al |-> c.al]) @@ @,
                                    !.use = (ev.id :> [a |-> ev.a, bs |-> 0]) @@ @]
  ELSE /\ Len(ev.ups) = 1
       /\ ~\E c \in pool.cached : Identical(c, bytes, ev.al)
       /\ LET u == ev.ups[1] IN
          /\ u.k = "a" /\ u.sz = bytes /\ u.al = ev.al
          /\ IF u.r = "ok"
             THEN /\ ev.r = "ok" /\ ev.a = u.a
                  /\ pool' = [pool EXCEPT !.over = (u.a :> [sz |-> u.sz, al |-> u.al]) @@ @,
                                          !.use = (ev.id :> [a |-> u.a, bs |-> 0]) @@ @]
             ELSE ev.r = "bad" /\ UNCHANGED pool

PoolAllocate(ev) ==
  LET bytes == Bytes(ev.sz) IN
  IF Oversized(ev.sz, ev.al) THEN OverServe(ev, bytes) ELSE PoolServe(ev, RoundUp(bytes))

PoolDeallocate(ev) ==
  LET w == pool.use[ev.id]
      u2 == [i \in DOMAIN pool.use \ {ev.id} |-> pool.use[i]] IN
  /\ ev.r = "ok"
  /\ IF w.bs > 0
     THEN ev.ups = <<>> /\ pool' = [pool EXCEPT !.use = u2]
     ELSE LET b == pool.over[w.a]
              o2 == [p \in DOMAIN pool.over \ {w.a} |-> pool.over[p]] IN
          IF pool.o.cache
          THEN /\ ev.ups = <<>>
               /\ pool' = [pool EXCEPT !.cached = @ \cup {[a |-> w.a, sz |-> b.sz, al |-> b.al]}, !.over = o2, !.use = u2]
          ELSE /\ Len(ev.ups) = 1 /\ ev.ups[1].k = "d" /\ ev.ups[1].a = w.a
               /\ pool' = [pool EXCEPT !.over = o2, !.use = u2]

PoolStep(ev) ==
  CASE ev.e = "R" -> PoolCreate(ev)
    [] ev.e = "a" -> PoolAllocate(ev)
    [] ev.e = "d" -> PoolDeallocate(ev)
    [] ev.e \in {"z", "n", "m", "M"} -> ev.r = "ok" /\ ev.ups = <<>> /\ UNCHANGED pool
    [] ev.e \in {"D", "end"} -> UNCHANGED pool
    [] OTHER -> FALSE

(* Blocks in use, and cached blocks, are disjoint; pooled ones lie in the   *)
(* chunks of their pool, which are aligned well enough.                     *)
PoolRanges == {<<pool.use[i].a, pool.use[i].bs>> : i \in {j \in DOMAIN pool.use : pool.use[j].bs > 0}}
              \cup {<<c.a, c.sz>> : c \in pool.cached} \cup {<<p, pool.over[p].sz>> : p \in DOMAIN pool.over}
PoolInv ==
  /\ \A x, y \in PoolRanges : x = y \/ x[1] + x[2] <= y[1] \/ y[1] + y[2] <= x[1]
  /\ \A i \in DOMAIN pool.use : pool.use[i].bs > 0 =>
       \E p \in DOMAIN pool.chunks : BlockIn(pool.use[i].a, p, pool.chunks[p].sz, pool.chunks[p].bs) /\ pool.chunks[p].bs = pool.use[i].bs
  /\ \A p \in DOMAIN pool.chunks : p % pool.o.al = 0
  /\ pool.cached # {} => pool.o.cache
=============================================================================
