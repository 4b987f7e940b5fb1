---- MODULE BuddyTrace ----
(* Validates traces recorded by harness/alloc_driver.cpp against Buddy. *)
EXTENDS Buddy, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLE l
TraceInit == BuddyInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ BuddyStep(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<buddy, l>>
Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
====
