---- MODULE AtomicTrace ----
(* A recorded history is accepted if there are moments for the effects of  *)
(* its operations that explain it; register 1 holds how far it was          *)
(* explained.                                                               *)
EXTENDS Atomic, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLE l
TraceInit == AtInit /\ l = 1 /\ TLCSet(1, 1)
Reached(n) == TLCSet(1, IF n > TLCGet(1) THEN n ELSE TLCGet(1))
(* An effect only has to happen before somebody returns. *)
Silent == l <= Len(Trace) /\ Trace[l].e = "ret" /\ ~(Trace[l].t \in DOMAIN pend /\ pend[Trace[l].t].done) /\ (\E t \in DOMAIN pend : Effect(t)) /\ UNCHANGED l
TraceNext == \/ l <= Len(Trace) /\ l' = l + 1 /\ AtStep(Trace[l]) /\ Reached(l + 1)
             \/ Silent
TraceSpec == TraceInit /\ [][TraceNext]_<<atVars, l>>
Accepted == PrintT(<<"DIAM", TLCGet(1), Len(Trace)>>) /\ TLCGet(1) - 1 = Len(Trace)
====
