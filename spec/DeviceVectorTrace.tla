---- MODULE DeviceVectorTrace ----
EXTENDS DeviceVector, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLE l
TraceInit == DVInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ DVStep(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<dvVars, l>>
Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
====
