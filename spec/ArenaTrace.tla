---- MODULE ArenaTrace ----
(* Validates traces recorded by harness/alloc_driver.cpp against Arena. *)
EXTENDS Arena, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLE l
TraceInit == ArenaInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ ArenaStep(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<arena, l>>
Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
====
