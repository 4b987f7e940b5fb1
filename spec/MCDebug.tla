------------------------------ MODULE MCDebug ------------------------------
(* All small histories of uses and misuses of a debug memory resource: the *)
(* client may deallocate with any recorded or unrecorded position, size    *)
(* and alignment, the upstream may place blocks over others.               *)
EXTENDS Debug, MCBase
CONSTANT Places       \* where upstream may place blocks
mcvars == <<dbg, envVars>>
MCInit == EnvInit("G", FALSE, FALSE) /\ DebugInit

(* Heap's client is well-behaved, so misuse is not a step of Heap's. *)
Quiet(e, ops) == ev' = e /\ hist' = hist \o ops /\ UNCHANGED <<heapVars, top, faults>>

DoAllocate ==
  /\ cfg.alive /\ Cardinality(DOMAIN live) < MaxLive
  /\ \E rq \in Requests : \E p \in Places : \E r \in {"ok", "logic"} :
       LET id == NewId
           u == [k |-> "a", n |-> 0, sz |-> rq[1], al |-> rq[2], r |-> "ok", a |-> p]
           e == AllocEv(id, rq, <<u>>, r, IF r = "ok" THEN p ELSE -1)
           ops == <<"O " \o ToString(p)>> \o AllocOps(id, rq, <<u>>) IN
       /\ p % rq[2] = 0 /\ DebugStep(e)
       /\ IF r = "ok" THEN Env(e, ops) ELSE Quiet(e, ops)
DoFail ==
  /\ cfg.alive /\ Cardinality(DOMAIN live) < MaxLive /\ faults < MaxFaults
  /\ \E rq \in Requests :
       LET id == NewId  us == <<Alc(0, rq[1], rq[2], "bad")>>  e == AllocEv(id, rq, us, "bad", -1) IN
       DebugStep(e) /\ Env(e, AllocOps(id, rq, us))
DoDeallocate ==
  cfg.alive /\ \E id \in DOMAIN live :
    LET e == FreeEv(id, <<Rtn(live[id].a)>>) IN DebugStep(e) /\ Env(e, FreeOps(id))
DoMisuse ==
  cfg.alive /\ \E p \in Places \cup {q + 8 : q \in Places} : \E rq \in Requests :
    LET e == [e |-> "d", id |-> -1, sz |-> rq[1], al |-> rq[2], r |-> "logic", a |-> p, ups |-> <<>>, ok |-> 1] IN
    DebugStep(e) /\ Quiet(e, <<"y " \o ToString(p) \o " " \o ToString(rq[1]) \o " " \o ToString(rq[2])>>)
DoDestroy == cfg.alive /\ LET e == [e |-> "D", r |-> "ok", ups |-> <<>>, ok |-> 1] IN DebugStep(e) /\ Env(e, <<"D">>)
MCNext == DoAllocate \/ DoFail \/ DoDeallocate \/ DoMisuse \/ DoDestroy
MCSpec == MCInit /\ [][MCNext]_mcvars
MCView == <<dbg, live, cfg.alive, faults, Len(hist)>>
Inv == HeapInv /\ DebugInv /\ (cfg.alive => DOMAIN dbg = {live[i].a : i \in DOMAIN live})
Honest == [][ev'.e \in {"a", "d", "D"} /\ ev'.r # "logic" => HeapStep(AllGuards, ev')]_envVars
RequestsA == {<<16, 16>>, <<32, 16>>, <<16, 8>>}
PlacesA == {8192, 8208, 8224, 8240}
=============================================================================
