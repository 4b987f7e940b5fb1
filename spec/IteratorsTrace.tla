---- MODULE IteratorsTrace ----
EXTENDS Iterators, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLE l
TraceInit == IInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ IStep(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<iVars, l>>
Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
====
