-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Buffers, copies of them and device vectors over them with more elements *)
(* or bytes than 16, 31 or 32 bits can count.  Numbers are pairs           *)
(* <<high, low>> in base 2^24.  Of the elements only those at the positions *)
(* in P are looked at.  An object is [k, rz, rows]; a row (one vector of    *)
(* it) is [c, s, v]: capacity, size, and the values at the positions of P  *)
(* below the capacity.  k: "v" one vector, "j" jagged, "e" structured with *)
(* two vectors, "f" structured with n jagged rows, a vector of n elements,  *)
(* and n jagged rows.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

VARIABLES P, objs
bigvars == <<P, objs>>

Base == 16777216
Zero == <<0, 0>>
Nr(n) == <<n \div Base, n % Base>>
AddB(x, y) == LET s == x[2] + y[2] IN <<x[1] + y[1] + s \div Base, s % Base>>
LeqB(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
LtB(x, y) == LeqB(x, y) /\ x # y
DecB(x) == IF x[2] > 0 THEN <<x[1], x[2] - 1>> ELSE <<x[1] - 1, Base - 1>>

(* The positions that are looked at in a row of capacity c: the first ones of P. *)
Looked(c) == Cardinality({k \in DOMAIN P : LtB(P[k], c)})
Wild == -2              \* a value that nothing is known about
Row(c, s, v) == [c |-> c, s |-> s, v |-> v]

Shape(k, n) ==         \* the capacities of the rows
  CASE k \in {"v", "j"} -> n
    [] k = "e" -> <<n[1], n[1]>>
    [] k = "f" -> n \o <<Nr(Len(n))>> \o n
OwnSize(k, rz, n, i) == rz = 1 /\ (k = "f" => i # Len(n) + 1)
Made(k, rz, n) == LET sh == Shape(k, n) IN
  [k |-> k, rz |-> rz, own |-> [i \in DOMAIN sh |-> IF OwnSize(k, rz, n, i) THEN 1 ELSE 0],
   rows |-> [i \in DOMAIN sh |-> Row(sh[i], IF OwnSize(k, rz, n, i) THEN Zero ELSE sh[i], [j \in 1..Looked(sh[i]) |-> Wild])]]

(* ------------------------------------------------------------ operations *)
Same(o) == [objs |-> o, thr |-> {""}, res |-> <<>>]
WithRow(t, i, row) == Same([objs EXCEPT ![t].rows[i] = row])
Resized(t, i, n) ==    \* the vectors of a flat structure share their size
  [objs EXCEPT ![t].rows = [j \in DOMAIN @ |-> IF j = i \/ objs[t].k = "e" THEN [@[j] EXCEPT !.s = n] ELSE @[j]]]
Within(j, a, b) == LeqB(a, P[j]) /\ LtB(P[j], b)
Put(r, a, b, x) == [j \in DOMAIN r.v |-> IF Within(j, a, b) THEN x ELSE r.v[j]]

Fits(f, t) == /\ Len(f.rows) = Len(t.rows)
              /\ \A i \in DOMAIN f.rows : LeqB(f.rows[i].s, t.rows[i].c)
(* What was in the target beyond the size of the source may be lost where   *)
(* everything is copied in one go.                                          *)
Copied(f, t, i) ==
  LET a == f.rows[i]  b == t.rows[i] IN
  [c |-> b.c, s |-> IF t.own[i] = 1 THEN a.s ELSE b.s,
   v |-> [j \in DOMAIN b.v |-> IF LtB(P[j], a.s) THEN a.v[j] ELSE IF f.k = "v" \/ LeqB(a.c, P[j]) \/ a.v[j] = b.v[j] THEN b.v[j] ELSE Wild]]
Lost(t) == [t EXCEPT !.rows = [i \in DOMAIN @ |-> [@[i] EXCEPT !.s = <<-1, 0>>, !.v = [j \in DOMAIN @ |-> Wild]]]]
Copy(f, t) ==
  IF Fits(objs[f], objs[t]) THEN Same([objs EXCEPT ![t].rows = [i \in DOMAIN @ |-> Copied(objs[f], objs[t], i)]])
  ELSE [objs |-> IF objs[t].k \in {"e", "f"} THEN [objs EXCEPT ![t] = Lost(objs[t])] ELSE objs, thr |-> {"len"}, res |-> <<>>]

Device(ev) ==
  LET r == objs[ev.t].rows[ev.r] IN
  CASE ev.op = "pb" -> [WithRow(ev.t, ev.r, [r EXCEPT !.s = AddB(r.s, Nr(1)), !.v = Put(r, r.s, AddB(r.s, Nr(1)), ev.x)]) EXCEPT !.res = <<r.s>>]
    [] ev.op = "pop" -> [WithRow(ev.t, ev.r, [r EXCEPT !.s = DecB(r.s), !.v = Put(r, DecB(r.s), r.s, Wild)]) EXCEPT !.res = <<DecB(r.s)>>]
    [] ev.op = "ba" -> [WithRow(ev.t, ev.r, [r EXCEPT !.s = AddB(r.s, ev.n), !.v = Put(r, r.s, AddB(r.s, ev.n), ev.x)]) EXCEPT !.res = <<r.s>>]
    [] ev.op = "rs" -> WithRow(ev.t, ev.r, [r EXCEPT !.s = ev.n, !.v = IF LeqB(r.s, ev.n) THEN Put(r, r.s, ev.n, ev.x) ELSE Put(r, ev.n, r.s, Wild)])
    [] ev.op = "di" -> [Same(objs) EXCEPT !.res = <<r.s, r.c, r.s, r.s, r.s, <<0, 1>>>>]
PushDefault(t) ==
  LET r == objs[t].rows[1]  m == AddB(r.s, Nr(1)) IN
  [objs |-> [objs EXCEPT ![t].rows = [i \in DOMAIN @ |-> [@[i] EXCEPT !.s = m, !.v = Put(objs[t].rows[i], r.s, m, 0)]]],
   thr |-> {""}, res |-> <<r.s, r.s, m, r.c, <<0, 1>>>>]

Forgot(v) == [v EXCEPT !.rows = [i \in DOMAIN @ |-> [@[i] EXCEPT !.v = [j \in DOMAIN @ |-> Wild]]]]
After(ev) ==
  CASE ev.op = "make" -> Same(Append(objs, Made(ev.k, ev.rz, ev.n)))
    [] ev.op = "fill" -> Same([objs EXCEPT ![ev.t] = Forgot(@)])
    [] ev.op = "sz" -> Same(Resized(ev.t, ev.r, ev.n))
    [] ev.op = "ms" -> Same([objs EXCEPT ![ev.t].rows = [i \in DOMAIN @ |-> [@[i] EXCEPT !.v = [j \in DOMAIN @ |-> ev.x]]]])
    [] ev.op = "copy" -> Copy(ev.f, ev.t)
    [] ev.op \in {"pb", "pop", "ba", "rs", "di"} -> Device(ev)
    [] ev.op = "dpb" -> PushDefault(ev.t)

(* ---------------------------------------------------------- what is seen *)
SeenRow(r, o) == /\ r.c = o.c /\ (r.s[1] = -1 \/ r.s = o.s) /\ Len(r.v) = Len(o.v)
                 /\ \A j \in DOMAIN r.v : r.v[j] = Wild \/ r.v[j] = o.v[j]
Seen(os, obs) == /\ Len(os) = Len(obs)
                 /\ \A i \in DOMAIN os : /\ Len(os[i].rows) = Len(obs[i])
                                         /\ \A k \in DOMAIN obs[i] : SeenRow(os[i].rows[k], obs[i][k])
Resolved(os, obs) == [i \in DOMAIN os |-> [os[i] EXCEPT !.rows = obs[i]]]
Outcome(ev, a) == /\ ev.op \in {"copy", "ms"} => ev.thr \in a.thr
                  /\ ev.op \in {"pb", "pop", "ba", "di", "dpb"} => ev.res = a.res
                  /\ ev.op = "make" => ev.in = 1
                  /\ ev.oob = 0
Operation(ev) == \E a \in {After(ev)} :
  /\ Outcome(ev, a) = TRUE /\ Seen(a.objs, ev.obs) = TRUE
  /\ objs' = Resolved(a.objs, ev.obs) /\ UNCHANGED P

BigInit == P = <<>> /\ objs = <<>>
BigStep(ev) ==
  CASE ev.e = "R" -> P' = ev.P /\ objs' = <<>>
    [] ev.e = "op" -> Operation(ev)
    [] ev.e = "drop" -> ev.out = 0 /\ ev.bad = 0 /\ objs' = <<>> /\ UNCHANGED P
    [] ev.e = "end" -> UNCHANGED bigvars
    [] OTHER -> FALSE

BigInv == \A i \in DOMAIN objs : \A k \in DOMAIN objs[i].rows : LET r == objs[i].rows[k] IN
            r.s[1] = -1 \/ (LeqB(r.s, r.c) /\ Len(r.v) = Looked(r.c))
=============================================================================
