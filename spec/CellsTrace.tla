---- MODULE CellsTrace ----
EXTENDS Cells, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLE l
TraceInit == CInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ CStep(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<cVars, l>>
Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
====
