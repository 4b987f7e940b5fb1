---- MODULE SyncTrace ----
EXTENDS Sync, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLE l
TraceInit == SyncInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ SyncStep(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<syncVars, l>>
Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
====
