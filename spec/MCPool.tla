------------------------------- MODULE MCPool -------------------------------
(* Exhaustive exploration of module Pool for small sets of requests and    *)
(* options, showing that it satisfies the contract of module Heap; every   *)
(* transition found is printed as a script for the conformance driver.     *)
EXTENDS Pool, Heap

CONSTANTS OptSeq,      \* the options, as a sequence of numbers
          OptName,     \* the same as text, for the scripts
          Requests,    \* set of <<size, alignment>>
          MaxLive, MaxDepth, MaxFaults

VARIABLES ev, hist, top, faults
mcvars == <<pool, heapVars, ev, hist, top, faults>>

Up(n, al) == ((n + al - 1) \div al) * al
Ids == 1..MaxLive
NewId == CHOOSE i \in Ids \ DOMAIN live : \A j \in Ids \ DOMAIN live : i <= j

Alc(sz, al, r) == [k |-> "a", n |-> 0, sz |-> sz, al |-> al, r |-> r, a |-> IF r = "ok" THEN Up(top, al) ELSE -1]

UpCands(rq) ==
  LET bytes == Bytes(rq[1]) IN
  IF Oversized(rq[1], rq[2])
  THEN {<<>>} \cup {<<Alc(bytes, rq[2], r)>> : r \in IF faults < MaxFaults THEN {"ok", "bad"} ELSE {"ok"}}
  ELSE LET bs == RoundUp(bytes)
           prev == IF bs \in DOMAIN pool.last THEN pool.last[bs] ELSE 0
           next == IF prev = 0 THEN MaxOf({1, pool.o.minb, pool.o.minB \div bs})
                   ELSE LET x == (prev * 3) \div 2  y == pool.o.maxB \div bs
                            m == IF x > y THEN y ELSE x
                        IN IF m > pool.o.maxb THEN pool.o.maxb ELSE m
       IN {<<>>} \cup {<<Alc(next * bs, pool.o.al, r)>> : r \in IF faults < MaxFaults THEN {"ok", "bad"} ELSE {"ok"}}

AddrCands(us) ==
  {-1} \cup UNION {{p + i * pool.chunks[p].bs : i \in 0..(pool.chunks[p].sz \div pool.chunks[p].bs - 1)} : p \in DOMAIN pool.chunks}
  \cup {c.a : c \in pool.cached}
  \cup (IF us # <<>> /\ us[1].r = "ok" THEN {us[1].a} ELSE {})

Do(e, ops) ==
  /\ PoolStep(e)
  /\ HeapStep({}, e)
  /\ ev' = e
  /\ hist' = hist \o ops

MCInit ==
  /\ pool = [o |-> Opt(OptSeq), last |-> <<>>, chunks |-> <<>>, cached |-> {}, over |-> <<>>, use |-> <<>>]
  /\ held = <<>> /\ live = <<>>
  /\ cfg = [kind |-> "P", keeps |-> TRUE, refuses |-> FALSE, direct |-> TRUE, alive |-> TRUE]
  /\ ev = [e |-> "none"]
  /\ hist = <<>>
  /\ top = 4096 /\ faults = 0

DoAllocate ==
  /\ cfg.alive /\ Cardinality(DOMAIN live) < MaxLive
  /\ \E rq \in Requests : \E us \in UpCands(rq) : \E a \in AddrCands(us) :
       LET r == IF us # <<>> /\ us[1].r = "bad" THEN "bad" ELSE "ok" IN
       /\ (r = "bad") = (a = -1)
       /\ Do([e |-> "a", id |-> NewId, sz |-> rq[1], al |-> rq[2], r |-> r, a |-> a, ups |-> us, ok |-> 1],
             (IF r = "bad" THEN <<"E 1">> ELSE <<>>)
             \o <<"a " \o ToString(NewId) \o " " \o ToString(rq[1]) \o " " \o ToString(rq[2])>>)
       /\ top' = IF us # <<>> /\ r = "ok" THEN us[1].a + us[1].sz ELSE top
       /\ faults' = IF r = "bad" THEN faults + 1 ELSE faults

DoDeallocate ==
  /\ cfg.alive
  /\ \E id \in DOMAIN live :
       LET b == IF pool.use[id].bs = 0 THEN pool.over[live[id].a] ELSE [sz |-> 0, al |-> 0]
           us == IF pool.use[id].bs = 0 /\ ~pool.o.cache
                 THEN <<[k |-> "d", n |-> 0, sz |-> b.sz, al |-> b.al, r |-> "ok", a |-> live[id].a]>> ELSE <<>>
       IN Do([e |-> "d", id |-> id, sz |-> live[id].sz, al |-> live[id].al, r |-> "ok", a |-> live[id].a, ups |-> us, ok |-> 1],
             <<"d " \o ToString(id)>>)
  /\ UNCHANGED <<top, faults>>

DoDestroy ==
  /\ cfg.alive
  /\ Do([e |-> "D", ups |-> SetToSeq({[k |-> "d", n |-> 0, sz |-> held[p].sz, al |-> held[p].al, r |-> "ok", a |-> p] : p \in DOMAIN held}), ok |-> 1],
        <<"D">>)
  /\ UNCHANGED <<top, faults>>

MCNext == DoAllocate \/ DoDeallocate \/ DoDestroy
MCSpec == MCInit /\ [][MCNext]_mcvars

MCView == <<pool, live, cfg.alive, top, faults, Len(hist)>>
Bound == Len(hist) < MaxDepth
Contract == [][HeapStep(AllGuards, ev')]_mcvars
Inv == HeapInv /\ PoolInv

Join(s) == FoldLeft(LAMBDA acc, x : acc \o ";" \o x, "", s)
Emit == PrintT("@@ " \o OptName \o Join(hist'))
OptA == <<1,1,4,1024,16,64,16,1,4,4>>
RequestsA == {<<16,16>>, <<40,8>>, <<100,16>>, <<30,64>>, <<300,32>>}
OptB == <<2,64,3,512,32,32,16,1,2,2>>
RequestsB == {<<32,16>>, <<33,16>>, <<66,16>>, <<40,32>>, <<100,32>>}
OptC == <<1,1,2,128,16,64,8,0,16,16>>
RequestsC == {<<5,1>>, <<64,8>>, <<65,8>>, <<10,16>>}
(* Growing chunks that meet the limit in blocks between the limit in bytes *)
(* and the last chunk, and the other way round.                            *)
OptD == <<4,64,4,80,16,16,16,1,2,2>>
RequestsD == {<<16,16>>}
OptE == <<4,64,5,64,16,16,16,1,2,2>>
RequestsE == {<<9,8>>}
=============================================================================
