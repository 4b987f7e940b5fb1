---- MODULE RouteTrace ----
(* Validates traces recorded by harness/alloc_driver.cpp against Route. *)
EXTENDS Route, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLE l
TraceInit == RouteInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ RouteStep(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<route, l>>
Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
====
