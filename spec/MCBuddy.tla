------------------------------ MODULE MCBuddy ------------------------------
EXTENDS Buddy, MCBase
mcvars == <<buddy, envVars>>
MCInit == EnvInit("B", TRUE, FALSE) /\ BuddyInit

SuperFor(n) == IF n >= 1048576 THEN n ELSE IF n * 256 > 1048576 THEN 1048576 ELSE n * 256
DoAllocate ==
  /\ cfg.alive /\ Cardinality(DOMAIN live) < MaxLive
  /\ \E rq \in Requests :
       \E n \in {PageSize(rq[1])} : \E cands \in {Usable(n)} : \E id \in {NewId} :
       \E us \in (IF cands # {} THEN {<<>>} ELSE {<<Alc(0, SuperFor(n), 256, r)>> : r \in Results}) :
       \E a \in (IF cands # {} THEN {f[1] : f \in cands} ELSE {us[1].a}) :
         LET e == AllocEv(id, rq, us, IF Failing(us) THEN "bad" ELSE "ok", a) IN
         BuddyStep(e) /\ Env(e, AllocOps(id, rq, us))
DoDeallocate == cfg.alive /\ \E id \in DOMAIN live : LET e == FreeEv(id, <<>>) IN BuddyStep(e) /\ Env(e, FreeOps(id))
DoDestroy == cfg.alive /\ BuddyStep(DeadEv) /\ Env(DeadEv, <<"D">>)

MCNext == DoAllocate \/ DoDeallocate \/ DoDestroy
MCSpec == MCInit /\ [][MCNext]_mcvars
MCView == <<buddy, live, cfg.alive, top, faults, Len(hist)>>
Inv == HeapInv /\ (cfg.alive => BuddyInv)
RequestsA == {<<200, 16>>, <<512, 256>>, <<16000, 8>>, <<65536, 64>>}
RequestsB == {<<256, 8>>, <<700, 32>>, <<1048576, 16>>, <<300000, 16>>, <<4096, 1>>}
=============================================================================
