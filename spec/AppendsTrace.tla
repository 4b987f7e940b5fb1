---- MODULE AppendsTrace ----
EXTENDS Appends, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLE l
TraceInit == ApInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ ApStep(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<apVars, l>>
Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
====
