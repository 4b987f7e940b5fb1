---- MODULE OwnerTrace ----
EXTENDS Owner, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLE l
TraceInit == OwnerInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ OwnerStep(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<ownerVars, l>>
Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
====
