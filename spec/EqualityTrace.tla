---- MODULE EqualityTrace ----
EXTENDS Equality, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLE l
TraceInit == EqualityInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ EqualityStep(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<objs, l>>
Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
====
