---- MODULE BigTrace ----
EXTENDS Big, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLE l
TraceInit == BigInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ BigStep(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<bigvars, l>>
Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
====
