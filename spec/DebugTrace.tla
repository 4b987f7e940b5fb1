---- MODULE DebugTrace ----
(* Validates traces recorded by harness/alloc_driver.cpp against Debug. *)
EXTENDS Debug, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLE l
TraceInit == DebugInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ DebugStep(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<dbg, l>>
Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
====
