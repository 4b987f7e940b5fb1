------------------------------ MODULE MCInstr ------------------------------
EXTENDS Instr, MCBase, FiniteSetsExt
mcvars == <<ins, envVars>>
MCInit == EnvInit("N", FALSE, FALSE) /\ InstrInit

Fire(h, sz, al, a, nu, ne) == LET reg == HooksOf(h) IN
  [k \in DOMAIN reg |-> [h |-> h, i |-> reg[k].i, sz |-> sz, al |-> al, a |-> a, nu |-> nu, ne |-> ne]]
Quiet(e, ops) == ev' = e /\ hist' = hist \o ops /\ UNCHANGED <<heapVars, top, faults>>
DoAllocate ==
  /\ cfg.alive /\ Cardinality(DOMAIN live) < MaxLive
  /\ \E rq \in Requests : \E r \in Results :
       LET id == NewId  us == <<Alc(0, rq[1], rq[2], r)>>
           e == [e |-> "a", id |-> id, sz |-> rq[1], al |-> rq[2], r |-> r, a |-> us[1].a, ups |-> us, ok |-> 1,
                 hk |-> Fire("pre", rq[1], rq[2], -1, 0, Len(ins.log)) \o Fire("post", rq[1], rq[2], us[1].a, 1, Len(ins.log) + 1)] IN
       InstrStep(e) /\ Env(e, AllocOps(id, rq, us))
DoDeallocate ==
  cfg.alive /\ \E id \in DOMAIN live :
    LET b == live[id]
        e == [e |-> "d", id |-> id, sz |-> b.sz, al |-> b.al, r |-> "ok", a |-> b.a, ups |-> <<Rtn(b.a)>>, ok |-> 1,
              hk |-> Fire("dea", b.sz, b.al, b.a, 0, Len(ins.log))] IN
    InstrStep(e) /\ Env(e, FreeOps(id))
DoHook ==
  /\ cfg.alive /\ Len(ins.hooks) < 3
  /\ \E h \in {"pre", "post", "dea"} :
       LET e == [e |-> "h", h |-> h, i |-> Len(ins.hooks) + 1, ups |-> <<>>] IN InstrStep(e) /\ Quiet(e, <<"h " \o h>>)
(* Monitors are attached while nothing is outstanding. *)
DoMonitor ==
  /\ cfg.alive /\ live = <<>> /\ Len(ins.mons) < 2
  /\ LET e == [e |-> "o", ups |-> <<>>] IN InstrStep(e) /\ Quiet(e, <<"o">>)
DoDestroy == cfg.alive /\ LET e == [e |-> "D", ups |-> <<>>, ok |-> 1] IN InstrStep(e) /\ Env(e, <<"g", "G", "D">>)
MCNext == DoAllocate \/ DoDeallocate \/ DoHook \/ DoMonitor \/ DoDestroy
MCSpec == MCInit /\ [][MCNext]_mcvars
MCView == <<ins, live, cfg.alive, faults, Len(hist)>>
Inv == /\ HeapInv /\ InstrInv
       /\ cfg.alive => \A k \in DOMAIN ins.mons : ins.mons[k].out = Big(FoldSet(LAMBDA i, acc : live[i].sz + acc, 0, DOMAIN live))
Honest == [][ev'.e \in {"a", "d", "D"} => HeapStep(AllGuards, ev')]_envVars
RequestsA == {<<16, 16>>, <<41, 8>>}
=============================================================================
