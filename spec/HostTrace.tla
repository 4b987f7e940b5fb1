---- MODULE HostTrace ----
EXTENDS Host, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLE l
TraceInit == HostInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ HostStep(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<host, l>>
Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
====
