------------------------------ MODULE MCArena ------------------------------
EXTENDS Arena, MCBase
CONSTANTS InitSize, MaxSize
mcvars == <<arena, envVars>>
(* The constructor takes a first block of the initial size. *)
MCInit ==
  /\ held = (4096 :> [sz |-> InitSize, al |-> 256, n |-> 0]) /\ live = <<>>
  /\ cfg = [kind |-> "A", keeps |-> TRUE, refuses |-> TRUE, direct |-> TRUE, alive |-> TRUE]
  /\ ev = [e |-> "none"] /\ hist = <<>> /\ top = 4096 + InitSize /\ faults = 0
  /\ arena = [init |-> InitSize, max |-> MaxSize, super |-> (4096 :> InitSize), free |-> {<<4096, InitSize>>}, use |-> <<>>]

SuperFor(n) == IF n <= InitSize THEN InitSize ELSE Max2(n, Threshold)
DoAllocate ==
  /\ cfg.alive /\ Cardinality(DOMAIN live) < MaxLive
  /\ \E rq \in Requests :
       LET n == Round(rq[1])  id == NewId
           fit == {f \in arena.free : f[2] >= n}
           inside == n < Threshold /\ fit # {}
           room == SuperFor(n) <= MaxSize - Total(arena.super) IN
       \E us \in (IF inside \/ ~room THEN {<<>>} ELSE {<<Alc(0, SuperFor(n), 256, r)>> : r \in Results}) :
         LET bad == Failing(us) \/ (~inside /\ ~room) IN
         \E a \in (IF bad THEN {-1} ELSE {f[1] : f \in fit} \cup (IF us = <<>> THEN {} ELSE {us[1].a})) :
         LET e == AllocEv(id, rq, us, IF bad THEN "bad" ELSE "ok", a) IN
         ArenaStep(e) /\ Env(e, AllocOps(id, rq, us))
DoDeallocate == cfg.alive /\ \E id \in DOMAIN live : LET e == FreeEv(id, <<>>) IN ArenaStep(e) /\ Env(e, FreeOps(id))
DoDestroy == cfg.alive /\ ArenaStep(DeadEv) /\ Env(DeadEv, <<"D">>)

MCNext == DoAllocate \/ DoDeallocate \/ DoDestroy
MCSpec == MCInit /\ [][MCNext]_mcvars
MCView == <<arena, live, cfg.alive, top, faults, Len(hist)>>
Inv == HeapInv /\ (cfg.alive => ArenaInv)
RequestsA == {<<100, 16>>, <<512, 256>>, <<1000, 8>>, <<262144, 16>>}
RequestsB == {<<256, 8>>, <<768, 32>>, <<261889, 16>>, <<300000, 64>>}
=============================================================================
