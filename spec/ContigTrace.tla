---- MODULE ContigTrace ----
(* Validates traces recorded by harness/alloc_driver.cpp against Contig. *)
EXTENDS Contig, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLE l
TraceInit == ContigInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ ContigStep(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<contig, l>>
Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
====
