---- MODULE VendorTrace ----
EXTENDS Vendor, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLE l
TraceInit == VendorInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ VendorStep(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<vendorVars, l>>
Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
====
