---- MODULE EdmTrace ----
EXTENDS Edm, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLE l
TraceInit == EdInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ EdStep(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<edmvars, l>>
Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
====
