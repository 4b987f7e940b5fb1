-------------------------------- MODULE Host --------------------------------
(***************************************************************************)
(* The host memory resource, alone or below pass-through resources: real   *)
(* addresses, as pairs <<high, low>> in base 2^24 (C02, C04, C15).         *)
(* Events as in module Heap, without upstream events; "av" is the number   *)
(* of bytes from the block's address to the end of the block that the      *)
(* C library gave (-1 if the block did not come from it).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE host      \* id -> [a, sz]
CONSTANT HostGuards    \* subset of {"align", "place", "result", "trivial"}
HugeSize == 2147483647
Base == 16777216
Plus(a, n) == LET s == a[2] + (n % Base) IN <<a[1] + (n \div Base) + (s \div Base), s % Base>>
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
HostInit == host = <<>>
HostAllocate(ev) ==
  IF ev.r = "ok"
  THEN /\ "align" \in HostGuards => ev.a[2] % ev.al = 0
       /\ "place" \in HostGuards => /\ ev.a # <<0, 0>> /\ ev.vast = 0
                                    /\ (ev.av = -1 \/ ev.av >= ev.sz)
                                    /\ \A i \in DOMAIN host : Leq(Plus(ev.a, ev.sz), host[i].a) \/ Leq(Plus(host[i].a, host[i].sz), ev.a)
       /\ "result" \in HostGuards => ev.a # <<0, 0>> /\ ev.vast = 0
       /\ host' = (ev.id :> [a |-> ev.a, sz |-> ev.sz]) @@ host
  ELSE /\ "result" \in HostGuards => ev.r = "bad" /\ ev.sz >= HugeSize
       /\ UNCHANGED host
HostStep(ev) ==
  CASE ev.e = "R" -> host' = <<>>
    [] ev.e = "a" -> ("place" \in HostGuards => ev.ok = 1) /\ HostAllocate(ev)
    [] ev.e = "d" -> /\ "place" \in HostGuards => ev.ok = 1
                     /\ "result" \in HostGuards => ev.r = "ok"
                     /\ host' = [i \in DOMAIN host \ {ev.id} |-> host[i]]
    [] ev.e \in {"z", "n"} -> ("trivial" \in HostGuards => ev.r = "ok" /\ ev.ok = 1) /\ UNCHANGED host
    [] ev.e \in {"m", "M", "D", "end"} -> UNCHANGED host
    [] OTHER -> FALSE
=============================================================================
