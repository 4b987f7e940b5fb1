-------------------------------- MODULE Sync --------------------------------
(***************************************************************************)
(* The synchronized memory resource (C13).  Steps, all by some thread t:   *)
(*    "call"  it calls allocate (k = "a") or deallocate (k = "d")          *)
(*    "in"    it enters the upstream resource with this call (u = 0; u = 1 *)
(*            is the one it had before it was assigned another one's)      *)
(*    "out"   it leaves it, with result r ("ok"/"bad") and position a      *)
(*    "ret"   its call returns (or throws)                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES pc, op      \* per thread: "idle"|"called"|"inside"|"left"; the call it is in
syncVars == <<pc, op>>

NoOp == [k |-> "-", sz |-> 0, al |-> 0, a |-> -1, r |-> "-"]
SyncInit == pc = <<>> /\ op = <<>>

Inside == {t \in DOMAIN pc : pc[t] = "inside"}

SyncStart(n) == pc' = [t \in 0..(n - 1) |-> "idle"] /\ op' = [t \in 0..(n - 1) |-> NoOp]
Call(t, k, sz, al, a) ==
  /\ pc[t] = "idle"
  /\ pc' = [pc EXCEPT ![t] = "called"]
  /\ op' = [op EXCEPT ![t] = [k |-> k, sz |-> sz, al |-> al, a |-> a, r |-> "-"]]
Enter(t, k, sz, al, a) ==
  /\ pc[t] = "called" /\ Inside = {}
  /\ op[t].k = k /\ op[t].sz = sz /\ op[t].al = al /\ op[t].a = a
  /\ pc' = [pc EXCEPT ![t] = "inside"] /\ UNCHANGED op
Leave(t, r, a) ==
  /\ pc[t] = "inside"
  /\ pc' = [pc EXCEPT ![t] = "left"] /\ op' = [op EXCEPT ![t].r = r, ![t].a = a]
Return(t, r, a) ==
  /\ pc[t] = "left" /\ op[t].r = r /\ op[t].a = a
  /\ pc' = [pc EXCEPT ![t] = "idle"] /\ op' = [op EXCEPT ![t] = NoOp]

SyncStep(ev) ==
  CASE ev.e = "R" -> SyncStart(ev.n)
    [] ev.e = "call" -> Call(ev.t, ev.k, ev.sz, ev.al, ev.a)
    [] ev.e = "in" -> ev.u = 0 /\ ev.t \in DOMAIN pc /\ Enter(ev.t, ev.k, ev.sz, ev.al, ev.a)
    [] ev.e = "out" -> Leave(ev.t, ev.r, ev.a)
    [] ev.e = "ret" -> Return(ev.t, ev.r, ev.a)
    [] ev.e = "D" -> (\A t \in DOMAIN pc : pc[t] = "idle") /\ UNCHANGED syncVars
    [] ev.e = "end" -> UNCHANGED syncVars
    [] OTHER -> FALSE

OneAtATime == Cardinality(Inside) <= 1
=============================================================================
