----------------------------- MODULE HeapTrace -----------------------------
(* Validates traces recorded by harness/alloc_driver.cpp against Heap.     *)
(* A scenario may be a "twin" of the one before it: the same calls without *)
(* those that failed; then all of its results must be the same (C04).      *)
EXTENDS Heap, Json, IOUtils

CONSTANT Guards

Trace == ndJsonDeserialize(IOEnv.VP_TRACE)

VARIABLES l, rec, twin
vars == <<heapVars, l, rec, twin>>

Ev == Trace[l]

(* What the client and the upstream saw of a call, for twins. *)
Seen(ev) == IF ev.e \in {"a", "d"} THEN <<ev.e, ev.id, ev.r, ev.a, ev.ups>> ELSE <<ev.e, ev.ups>>

Twinned ==
  CASE Ev.e = "R" -> /\ twin' = IF Ev.twin = 1 THEN 1 ELSE 0
                     /\ rec' = IF Ev.twin = 1 THEN rec ELSE <<>>
    [] Ev.e # "R" /\ twin > 0 -> /\ twin' = twin + 1
                                 /\ rec' = rec
                                 /\ "result" \in Guards /\ Ev.e # "end" => twin <= Len(rec) /\ rec[twin] = Seen(Ev)
    [] OTHER -> /\ twin' = twin
                /\ rec' = IF "result" \in Guards /\ Ev.e # "end" /\ ~(Ev.e = "a" /\ Ev.r # "ok")
                          THEN Append(rec, Seen(Ev)) ELSE rec

TraceInit == HeapInit /\ l = 1 /\ rec = <<>> /\ twin = 0
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ HeapStep(Guards, Ev) /\ Twinned
TraceSpec == TraceInit /\ [][TraceNext]_vars

Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
