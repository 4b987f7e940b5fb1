----------------------------- MODULE PoolTrace -----------------------------
EXTENDS Pool, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLE l
TraceInit == PoolInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ PoolStep(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<pool, l>>
Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
