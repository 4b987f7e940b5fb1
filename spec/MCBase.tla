------------------------------- MODULE MCBase -------------------------------
(* What the exhaustive models of the memory resources share: the contract  *)
(* (module Heap), the bookkeeping of the environment, and the printing of  *)
(* every transition as a script for harness/alloc_driver.cpp.              *)
EXTENDS Heap

CONSTANTS Name,        \* the resource, for the scripts
          Requests,    \* set of <<size, alignment>>
          MaxLive, MaxDepth, MaxFaults

VARIABLES ev, hist, top, faults
envVars == <<heapVars, ev, hist, top, faults>>

UpTo(n, al) == ((n + al - 1) \div al) * al
Ids == 1..MaxLive
NewId == CHOOSE i \in Ids \ DOMAIN live : \A j \in Ids \ DOMAIN live : i <= j

Results == IF faults < MaxFaults THEN {"ok", "bad"} ELSE {"ok"}
(* An upstream allocation; new blocks lie one behind the other. *)
Alc(n, sz, al, r) == [k |-> "a", n |-> n, sz |-> sz, al |-> al, r |-> r, a |-> IF r = "ok" THEN UpTo(top, al) ELSE -1]
Rtn(p) == [k |-> "d", n |-> held[p].n, sz |-> held[p].sz, al |-> held[p].al, r |-> "ok", a |-> p]
Failing(us) == \E i \in DOMAIN us : us[i].r = "bad"

EnvInit(kind, keeps, refuses) ==
  /\ held = <<>> /\ live = <<>>
  /\ cfg = [kind |-> kind, keeps |-> keeps, refuses |-> refuses, direct |-> TRUE, alive |-> TRUE]
  /\ ev = [e |-> "none"] /\ hist = <<>> /\ top = 4096 /\ faults = 0

(* To be conjoined with the precise specification's step for event e. *)
Env(e, ops) ==
  /\ HeapStep({}, e)
  /\ ev' = e
  /\ hist' = hist \o ops
  /\ top' = FoldLeft(LAMBDA t, u : IF u.k = "a" /\ u.a >= 0 /\ u.a + u.sz > t THEN u.a + u.sz ELSE t, top, e.ups)
  /\ faults' = faults + Cardinality({i \in DOMAIN e.ups : e.ups[i].r = "bad"})

AllocEv(id, rq, us, r, a) == [e |-> "a", id |-> id, sz |-> rq[1], al |-> rq[2], r |-> r, a |-> a, ups |-> us, ok |-> 1]
FreeEv(id, us) == [e |-> "d", id |-> id, sz |-> live[id].sz, al |-> live[id].al, r |-> "ok", a |-> live[id].a, ups |-> us, ok |-> 1]
DeadEv == [e |-> "D", ups |-> SetToSeq({Rtn(p) : p \in DOMAIN held}), ok |-> 1]

FaultOps(us) ==
  LET calls == SelectSeq(us, LAMBDA u : u.k = "a")
      bads == {i \in DOMAIN calls : calls[i].r = "bad"} IN
  IF bads = {} THEN <<>> ELSE <<FoldLeft(LAMBDA s, i : IF i \in bads THEN s \o " " \o ToString(i) ELSE s, "E", [i \in 1..Len(calls) |-> i])>>
AllocOps(id, rq, us) == FaultOps(us) \o <<"a " \o ToString(id) \o " " \o ToString(rq[1]) \o " " \o ToString(rq[2])>>
FreeOps(id) == <<"d " \o ToString(id)>>

Bound == Len(hist) < MaxDepth
Contract == [][HeapStep(AllGuards, ev')]_envVars
Join(s) == FoldLeft(LAMBDA acc, x : acc \o ";" \o x, "", s)
Emit == PrintT("@@ " \o Name \o Join(hist'))
=============================================================================
