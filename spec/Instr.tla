-------------------------------- MODULE Instr --------------------------------
(***************************************************************************)
(* The instrumenting memory resource (C11) and memory monitors attached to *)
(* it (C12).  Events are those of module Heap, and                         *)
(*    "h" (h, i)   hook number i of kind h = "pre"|"post"|"dea" is added   *)
(*    "o"          a monitor is attached                                   *)
(*    "g" (ev)     the recorded events are read                            *)
(*    "G" (mon)    the monitors are read; numbers are pairs <<high, low>>  *)
(* Calls carry hk: the hook invocations [h, i, sz, al, a, nu, ne], where   *)
(* nu and ne are the numbers of upstream calls made and of events recorded *)
(* at that time.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

VARIABLE ins    \* [hooks: sequence of [h, i], log: recorded events, mons: sequence of statistics]

CONSTANT InstrGuards       \* subset of {"events", "monitor"}

InstrInit == ins = [hooks |-> <<>>, log |-> <<>>, mons |-> <<>>]

----
(* Numbers too large for TLC: <<high, low>> in base 2^24. *)
Base == 16777216
Big(n) == <<n \div Base, n % Base>>
AddB(x, y) == LET s == x[2] + y[2] IN <<x[1] + y[1] + s \div Base, s % Base>>
SubB(x, y) == IF x[2] >= y[2] THEN <<x[1] - y[1], x[2] - y[2]>> ELSE <<x[1] - y[1] - 1, x[2] + Base - y[2]>>
LeqB(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
TimesB(x, k) == LET l == x[2] * k IN <<x[1] * k + l \div Base, l % Base>>      \* k < 128

----
HooksOf(h) == SelectSeq(ins.hooks, LAMBDA x : x.h = h)

(* The hooks of kind h were invoked once each, in order, with these values. *)
Invoked(hs, h, sz, al, a, nu) ==
  LET reg == HooksOf(h) IN
  /\ Len(hs) = Len(reg)
  /\ \A k \in DOMAIN hs : hs[k].i = reg[k].i /\ hs[k].h = h /\ hs[k].sz = sz /\ hs[k].al = al /\ hs[k].a = a /\ hs[k].nu = nu

(* The duration in the last event: the call of upstream took so long at    *)
(* least, and the whole call at most.  (Clocks may differ a little.)       *)
Timed(ev) == "tm" \in DOMAIN ev =>
  /\ ev.tm[2] + ev.tm[1] \div 100 + 1000 >= ev.tm[1]
  /\ ev.tm[2] <= ev.tm[3] + ev.tm[3] \div 100 + 1000

InstrAllocate(ev) ==
  LET npre == Len(HooksOf("pre")) IN
  /\ "events" \in InstrGuards =>
       /\ Len(ev.ups) = 1
       /\ LET u == ev.ups[1] IN u.k = "a" /\ u.sz = ev.sz /\ u.al = ev.al /\ ev.r = u.r /\ ev.a = u.a
       /\ Len(ev.hk) >= npre
       /\ Invoked(SubSeq(ev.hk, 1, npre), "pre", ev.sz, ev.al, -1, 0)
       /\ Invoked(SubSeq(ev.hk, npre + 1, Len(ev.hk)), "post", ev.sz, ev.al, ev.a, 1)
       /\ \A k \in (npre + 1)..Len(ev.hk) : ev.hk[k].ne = Len(ins.log) + 1
       /\ Timed(ev)
  /\ ins' = [ins EXCEPT
       !.log = Append(@, [t |-> "A", sz |-> ev.sz, al |-> ev.al, a |-> ev.a]),
       !.mons = IF ev.r # "ok" THEN @ ELSE
          [k \in DOMAIN @ |-> LET m == @[k]  o == AddB(m.out, Big(ev.sz)) IN
             [tot |-> AddB(m.tot, Big(ev.sz)), out |-> o, max |-> IF LeqB(m.max, o) THEN o ELSE m.max, n |-> m.n + 1]]]

InstrDeallocate(ev) ==
  /\ "events" \in InstrGuards =>
       /\ ev.r = "ok" /\ Len(ev.ups) = 1
       /\ LET u == ev.ups[1] IN u.k = "d" /\ u.sz = ev.sz /\ u.al = ev.al /\ u.a = ev.a
       /\ Invoked(ev.hk, "dea", ev.sz, ev.al, ev.a, 0)
       /\ Timed(ev)
  /\ ins' = [ins EXCEPT
       !.log = Append(@, [t |-> "D", sz |-> ev.sz, al |-> ev.al, a |-> ev.a]),
       !.mons = [k \in DOMAIN @ |-> [@[k] EXCEPT !.out = SubB(@, Big(ev.sz))]]]

(* Mean of n allocations adding up to tot, to the nearest byte. *)
MeanOK(avg, tot, n) ==
  IF n = 0 THEN avg = <<0, 0>>
  ELSE LET a2 == TimesB(avg, 2 * n)  t2 == TimesB(tot, 2) IN
       LeqB(a2, AddB(t2, Big(n))) /\ LeqB(t2, AddB(a2, Big(n)))

InstrRead(ev) ==
  CASE ev.e = "g" -> "events" \in InstrGuards => ev.ev = ins.log
    [] ev.e = "G" -> "monitor" \in InstrGuards =>
         /\ Len(ev.mon) = Len(ins.mons)
         /\ \A k \in DOMAIN ev.mon : LET m == ins.mons[k]  x == ev.mon[k] IN
              x.tot = m.tot /\ x.out = m.out /\ x.max = m.max /\ MeanOK(x.avg, m.tot, m.n)

InstrStep(ev) ==
  CASE ev.e = "R" -> ins' = [hooks |-> <<>>, log |-> <<>>, mons |-> <<>>]
    [] ev.e = "a" -> InstrAllocate(ev)
    [] ev.e = "d" -> InstrDeallocate(ev)
    [] ev.e = "h" -> ins' = [ins EXCEPT !.hooks = Append(@, [h |-> ev.h, i |-> ev.i])]
    [] ev.e = "o" -> ins' = [ins EXCEPT !.mons = Append(@, [tot |-> <<0, 0>>, out |-> <<0, 0>>, max |-> <<0, 0>>, n |-> 0])]
    [] ev.e \in {"g", "G"} -> InstrRead(ev) /\ UNCHANGED ins
    [] ev.e \in {"m", "M", "D", "end"} -> UNCHANGED ins
    [] OTHER -> FALSE

InstrInv == \A k \in DOMAIN ins.mons : LET m == ins.mons[k] IN LeqB(m.out, m.max) /\ LeqB(m.max, m.tot)
=============================================================================
