------------------------------ MODULE MCContig ------------------------------
EXTENDS Contig, MCBase
CONSTANT Size
mcvars == <<contig, envVars>>
MCInit ==
  /\ held = (4096 :> [sz |-> Size, al |-> 16, n |-> 0]) /\ live = <<>>
  /\ cfg = [kind |-> "C", keeps |-> TRUE, refuses |-> TRUE, direct |-> TRUE, alive |-> TRUE]
  /\ ev = [e |-> "none"] /\ hist = <<>> /\ top = 4096 + Size /\ faults = 0
  /\ contig = [next |-> 4096, end |-> 4096 + Size, up |-> <<[k |-> "a", n |-> 0, sz |-> Size, al |-> 16, r |-> "ok", a |-> 4096]>>]

DoAllocate ==
  /\ cfg.alive /\ Cardinality(DOMAIN live) < MaxLive
  /\ \E rq \in Requests : \E r \in {"ok", "bad"} :
       LET id == NewId  e == AllocEv(id, rq, <<>>, r, IF r = "ok" THEN AlignUp(contig.next, rq[2]) ELSE -1) IN
       ContigStep(e) /\ Env(e, AllocOps(id, rq, <<>>))
DoDeallocate == cfg.alive /\ \E id \in DOMAIN live : LET e == FreeEv(id, <<>>) IN ContigStep(e) /\ Env(e, FreeOps(id))
DoDestroy == cfg.alive /\ ContigStep(DeadEv) /\ Env(DeadEv, <<"D">>)
MCNext == DoAllocate \/ DoDeallocate \/ DoDestroy
MCSpec == MCInit /\ [][MCNext]_mcvars
MCView == <<contig, live, cfg.alive, Len(hist)>>
Inv == HeapInv /\ ContigInv
RequestsA == {<<1, 1>>, <<3, 8>>, <<16, 16>>, <<7, 64>>, <<40, 4>>}
=============================================================================
