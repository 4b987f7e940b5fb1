------------------------------- MODULE MCSync -------------------------------
(* All interleavings of a few threads: mutual exclusion, and that every    *)
(* call returns.  Scripts schedule the calls, and the leaving of upstream. *)
EXTENDS Sync, SequencesExt
CONSTANTS N, MaxCalls, Name
VARIABLES hist, calls, own
mcvars == <<syncVars, hist, calls, own>>
MCInit == /\ pc = [t \in 0..(N - 1) |-> "idle"] /\ op = [t \in 0..(N - 1) |-> NoOp]
          /\ hist = <<>> /\ calls = 0 /\ own = [t \in 0..(N - 1) |-> 0]
S(t) == ToString(t)
DoCall(t) ==
  /\ calls < MaxCalls
  /\ \/ Call(t, "a", 16 * (t + 1), 8, -1) /\ hist' = Append(hist, "c " \o S(t) \o " a " \o S(16 * (t + 1)) \o " 8") /\ UNCHANGED own
     \/ own[t] > 0 /\ Call(t, "d", 16 * (t + 1), 8, t) /\ hist' = Append(hist, "c " \o S(t) \o " d 0") /\ own' = [own EXCEPT ![t] = @ - 1]
  /\ calls' = calls + 1
DoEnter(t) == Enter(t, op[t].k, op[t].sz, op[t].al, op[t].a) /\ UNCHANGED <<hist, calls, own>>
DoLeave(t) == \E r \in (IF pc[t] = "inside" /\ op[t].k = "a" THEN {"ok", "bad"} ELSE {"ok"}) :
  /\ Leave(t, r, IF r = "ok" THEN t ELSE -1)
  /\ hist' = Append(hist, "o " \o S(t) \o " " \o r)
  /\ own' = IF op[t].k = "a" /\ r = "ok" THEN [own EXCEPT ![t] = @ + 1] ELSE own
  /\ UNCHANGED calls
DoReturn(t) == Return(t, op[t].r, op[t].a) /\ UNCHANGED <<hist, calls, own>>
Step(t) == DoCall(t) \/ DoEnter(t) \/ DoLeave(t) \/ DoReturn(t)
MCNext == \E t \in 0..(N - 1) : Step(t)
MCSpec == MCInit /\ [][MCNext]_mcvars /\ \A t \in 0..(N - 1) : WF_mcvars(DoEnter(t) \/ DoLeave(t) \/ DoReturn(t)) /\ SF_mcvars(DoEnter(t))
(* The order of the calls matters for the scripts, so it is part of a state. *)
MCView == <<syncVars, calls, own>>
Join(s) == FoldLeft(LAMBDA acc, x : acc \o ";" \o x, "", s)
Emit == PrintT("@@ " \o Name \o Join(hist'))
EveryCallReturns == \A t \in 0..(N - 1) : pc[t] # "idle" ~> pc[t] = "idle"
=============================================================================
