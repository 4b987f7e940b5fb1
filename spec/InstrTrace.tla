---- MODULE InstrTrace ----
(* Validates traces recorded by harness/alloc_driver.cpp against Instr. *)
EXTENDS Instr, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLE l
TraceInit == InstrInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ InstrStep(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<ins, l>>
Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
====
