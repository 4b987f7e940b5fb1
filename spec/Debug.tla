-------------------------------- MODULE Debug --------------------------------
(***************************************************************************)
(* The debug memory resource: misuse by the client, or overlapping memory  *)
(* from upstream, is flagged exactly when it happens (C10).  Events are    *)
(* those of module Heap, except that "d" may name anything.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE dbg         \* position -> [sz, al] of what is allocated through it

Apart(a, n, b, m) == (b - a >= n) \/ (a - b >= m)

DebugInit == dbg = <<>>

DebugAllocate(ev) ==
  /\ Len(ev.ups) = 1
  /\ LET u == ev.ups[1] IN
     /\ u.k = "a" /\ u.sz = ev.sz /\ u.al = ev.al
     /\ IF u.r # "ok" THEN ev.r = u.r /\ UNCHANGED dbg
        ELSE IF \E p \in DOMAIN dbg : ~Apart(p, dbg[p].sz, u.a, u.sz)
        THEN ev.r = "logic" /\ UNCHANGED dbg
        ELSE ev.r = "ok" /\ ev.a = u.a /\ dbg' = (u.a :> [sz |-> ev.sz, al |-> ev.al]) @@ dbg

DebugDeallocate(ev) ==
  IF ev.a \in DOMAIN dbg /\ dbg[ev.a] = [sz |-> ev.sz, al |-> ev.al]
  THEN /\ ev.r = "ok" /\ Len(ev.ups) = 1
       /\ LET u == ev.ups[1] IN u.k = "d" /\ u.a = ev.a /\ u.sz = ev.sz /\ u.al = ev.al
       /\ dbg' = [p \in DOMAIN dbg \ {ev.a} |-> dbg[p]]
  ELSE ev.r = "logic" /\ ev.ups = <<>> /\ UNCHANGED dbg

DebugStep(ev) ==
  CASE ev.e = "R" -> ev.r = "ok" /\ ev.ups = <<>> /\ dbg' = <<>>
    [] ev.e = "a" -> DebugAllocate(ev)
    [] ev.e = "d" -> DebugDeallocate(ev)
    [] ev.e \in {"z", "n"} -> ev.r = "ok" /\ ev.ups = <<>> /\ UNCHANGED dbg
    [] ev.e \in {"m", "M"} -> ev.ups = <<>> /\ UNCHANGED dbg
    [] ev.e = "D" -> ev.ups = <<>> /\ dbg' = <<>>
    [] ev.e = "end" -> UNCHANGED dbg
    [] OTHER -> FALSE

DebugInv == \A p, q \in DOMAIN dbg : p # q => Apart(p, dbg[p].sz, q, dbg[q].sz)
=============================================================================
