-------------------------------- MODULE Copy --------------------------------
(***************************************************************************)
(* Host vectors, buffers and the copies between them (C24 to C29).         *)
(* An object is a sequence of rows (one row, if it is one-dimensional); a  *)
(* row is [c: capacity, s: size, v: what is in its memory, also beyond its *)
(* size].  Operations are functions from the objects before to the objects *)
(* after; Unspec stands for what an operation leaves open.                 *)
(* Operands are <<object, m, a, b>>: the whole of it ("w"), its row a      *)
(* ("r"), b elements from a on ("s"), or its first a rows ("p").           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Unspec == 9999999
VARIABLE objs
NoObject == [live |-> 0, jag |-> 0, k |-> "f", dev |-> 0, rows |-> <<>>, blk |-> {}]
CpInit == objs = <<>>

(* ------------------------------------------------------------- operands *)
(* Where its rows are: object, row, first element, capacity, whether there
   is a size of its own. *)
Resz(o) == o.k = "r"
RowSlot(x, r) == [o |-> x, r |-> r, off |-> 0, cap |-> objs[x].rows[r].c, rz |-> Resz(objs[x])]
Slots(p) == CASE p[2] = "w" -> [r \in DOMAIN objs[p[1]].rows |-> RowSlot(p[1], r)]
              [] p[2] = "p" -> [r \in 1..p[3] |-> RowSlot(p[1], r)]
              [] p[2] = "r" -> <<RowSlot(p[1], p[3] + 1)>>
              [] p[2] = "s" -> <<[o |-> p[1], r |-> 1, off |-> p[3], cap |-> p[4], rz |-> FALSE]>>
Jagged(p) == p[2] = "p" \/ (p[2] = "w" /\ objs[p[1]].jag = 1)
RowOf(sl) == objs[sl.o].rows[sl.r]
Raw(sl) == SubSeq(RowOf(sl).v, sl.off + 1, sl.off + sl.cap)
SizeOf(sl) == IF sl.rz THEN RowOf(sl).s ELSE sl.cap
Val(sl) == SubSeq(Raw(sl), 1, SizeOf(sl))
Values(p) == [i \in DOMAIN Slots(p) |-> Val(Slots(p)[i])]
SizesOf(p) == [i \in DOMAIN Slots(p) |-> SizeOf(Slots(p)[i])]
Within(v, off, t) == SubSeq(v, 1, off) \o t \o SubSeq(v, off + Len(t) + 1, Len(v))
(* vals into the slots ts, sizes along with it. *)
PutRow(os, t, vals) == [os EXCEPT ![t.o].rows[t.r] = [c |-> @.c, s |-> IF t.rz THEN Len(vals) ELSE @.s, v |-> Within(@.v, t.off, vals)]]
PutAll(os, ts, vals) == FoldLeftDomain(LAMBDA acc, i : PutRow(acc, ts[i], vals[i]), os, ts)
ResizeAll(os, ts, sizes) == FoldLeftDomain(LAMBDA acc, i : IF ts[i].rz THEN [acc EXCEPT ![ts[i].o].rows[ts[i].r].s = sizes[i]] ELSE acc, os, ts)
Same(x) == [thr |-> {0}, objs |-> x, r |-> <<>>]
Refused == [thr |-> {1}, objs |-> objs, r |-> <<>>]
HostRow(v) == [c |-> Len(v), s |-> Len(v), v |-> v]

(* ----------------------------------------------------------- operations *)
Copy1(f, t) == IF SizeOf(f) > t.cap THEN Refused ELSE Same(PutRow(objs, t, Val(f)))
(* Beyond the size, the target may be filled with what the source has there,
   if the target is one piece of memory. *)
OnePiece(p) == objs[p[1]].k # "h" \/ Cardinality({i \in DOMAIN objs[p[1]].rows : objs[p[1]].rows[i].c > 0}) <= 1
Rest(f, t, free) == [i \in 1..t.cap |-> IF i <= SizeOf(f) THEN Val(f)[i]
                                       ELSE IF ~free \/ i > f.cap THEN Raw(t)[i]
                                       ELSE IF Raw(f)[i] = Raw(t)[i] THEN Raw(t)[i] ELSE Unspec]
CopyJ(fs, ts, free) ==
  IF Len(fs) > Len(ts) \/ (0 < Len(fs) /\ Len(fs) < Len(ts)) \/ (\E i \in 1..Len(fs) : SizeOf(fs[i]) > ts[i].cap) THEN Refused
  ELSE IF Len(fs) = 0 THEN [thr |-> IF Len(ts) = 0 THEN {0} ELSE {0, 1}, objs |-> objs, r |-> <<>>]
  ELSE Same(ResizeAll(FoldLeftDomain(LAMBDA acc, i : [acc EXCEPT ![ts[i].o].rows[ts[i].r].v = Within(@, ts[i].off, Rest(fs[i], ts[i], free))], objs, ts),
                      ts, [i \in DOMAIN fs |-> SizeOf(fs[i])]))
Copies(f, t) == IF Jagged(f) THEN CopyJ(Slots(f), Slots(t), OnePiece(t)) ELSE Copy1(Slots(f)[1], Slots(t)[1])
(* A host vector becomes what the source is. *)
ToHost(f, t) == Same([objs EXCEPT ![t[1]].rows = [i \in DOMAIN Slots(f) |-> HostRow(Val(Slots(f)[i]))]])
SetSizes(t, x) == IF Len(x) # Len(Slots(t)) \/ (\E i \in DOMAIN x : x[i] > Slots(t)[i].cap) THEN Refused
                  ELSE Same(ResizeAll(objs, Slots(t), x))
SetUp(t) == Same(ResizeAll(objs, Slots(t), [i \in DOMAIN Slots(t) |-> 0]))
MemSet(t, x) == Same(FoldLeftDomain(LAMBDA acc, i : [acc EXCEPT ![Slots(t)[i].o].rows[Slots(t)[i].r].v = Within(@, Slots(t)[i].off, [k \in 1..Slots(t)[i].cap |-> x])], objs, Slots(t)))
Gone(os, x) == [os EXCEPT ![x] = NoObject]
(* Of a new object, the contents are not known yet (and neither are the sizes
   of a resizable one). *)
NewBuffer(jag, k, dev, x) ==
  [live |-> 1, jag |-> jag, k |-> k, dev |-> dev, blk |-> {},
   rows |-> [i \in DOMAIN x |-> [c |-> x[i], s |-> IF k = "r" /\ (jag = 1 \/ x[i] > 0) THEN Unspec ELSE x[i], v |-> [j \in 1..x[i] |-> Unspec]]]]
NewHost(jag, vals) == [live |-> 1, jag |-> jag, k |-> "h", dev |-> 0, blk |-> {}, rows |-> [i \in DOMAIN vals |-> HostRow(vals[i])]]
NewCopy(f, dev) == [live |-> 1, jag |-> IF Jagged(f) THEN 1 ELSE 0, k |-> "f", dev |-> dev, blk |-> {}, rows |-> [i \in DOMAIN Slots(f) |-> HostRow(Val(Slots(f)[i]))]]

After(ev) ==
  CASE ev.op = "host" -> Same(Append(objs, NewHost(ev.jag, ev.obs[Len(ev.obs)].v)))
    [] ev.op = "buf" -> Same(Append(objs, NewBuffer(ev.jag, ev.k, ev.dev, ev.x)))
    [] ev.op = "bufv" -> Same(Append(objs, NewBuffer(1, ev.k, ev.dev, SizesOf(ev.f))))
    [] ev.op = "to" -> Same(Append(objs, NewCopy(ev.f, ev.dev)))
    [] ev.op = "mv" -> Same(Append(Gone(objs, ev.o), objs[ev.o]))
    [] ev.op = "ma" -> Same(Gone([objs EXCEPT ![ev.t[1]] = objs[ev.o]], ev.o))
    [] ev.op = "free" -> Same(Gone(objs, ev.t[1]))
    [] ev.op = "setup" -> SetUp(ev.t)
    [] ev.op = "ms" -> MemSet(ev.t, ev.x[1])
    [] ev.op = "copy" -> Copies(ev.f, ev.t)
    [] ev.op = "tv" -> ToHost(ev.f, ev.t)
    [] ev.op = "gs" -> [thr |-> {0}, objs |-> objs, r |-> SizesOf(ev.f)]
    [] ev.op = "ss" -> SetSizes(ev.t, ev.x)
    [] ev.op = "wr" -> Same([objs EXCEPT ![ev.t[1]].rows[ev.x[1] + 1].v[ev.x[2] + 1] = ev.x[3]])
    [] ev.op = "rz" -> Same([objs EXCEPT ![ev.t[1]].rows[ev.x[1] + 1].s = ev.x[2]])
    [] ev.op = "wait" -> Same(objs)

(* --------------------------------------------------------- what is seen *)
(* n: 0: as given, 1: not observable now, 2: gone, 3: as seen last time. *)
AgreeSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : s[i] = Unspec \/ s[i] = t[i]
SeenAs(o, b) ==
  CASE b.n = 2 -> o.live = 0
    [] b.n = 1 -> o.live = 1
    [] b.n = 0 -> /\ o.live = 1 /\ b.dd = 1
                  /\ [i \in DOMAIN o.rows |-> o.rows[i].c] = b.c
                  /\ AgreeSeq([i \in DOMAIN o.rows |-> o.rows[i].s], b.s)
                  /\ \A i \in DOMAIN o.rows : AgreeSeq(o.rows[i].v, b.v[i])
    [] OTHER -> FALSE
SameRows(o, p) == /\ o.live = 1 /\ Len(o.rows) = Len(p.rows)
                  /\ \A i \in DOMAIN o.rows : o.rows[i].c = p.rows[i].c /\ AgreeSeq(<<o.rows[i].s>>, <<p.rows[i].s>>) /\ AgreeSeq(o.rows[i].v, p.rows[i].v)
Resolve(o, b) == IF b.n = 0 THEN [o EXCEPT !.rows = [i \in DOMAIN o.rows |-> [c |-> b.c[i], s |-> b.s[i], v |-> b.v[i]]]] ELSE o
Resolved(os, b) == [i \in DOMAIN os |-> IF b[i].n = 3 THEN [os[i] EXCEPT !.rows = objs[i].rows] ELSE Resolve(os[i], b[i])]
Seen(os, b) == Len(os) = Len(b) /\ \A i \in DOMAIN os : IF b[i].n = 3 THEN i \in DOMAIN objs /\ SameRows(os[i], objs[i]) ELSE SeenAs(os[i], b[i])

(* -------------------------------------------------------------- memory *)
Taken(ups) == {<<ups[i][2], ups[i][3], ups[i][4]>> : i \in {j \in DOMAIN ups : ups[j][1] = "a"}}
Given(ups) == {<<ups[i][2], ups[i][3], ups[i][4]>> : i \in {j \in DOMAIN ups : ups[j][1] = "d"}}
Owned(ups) == Taken(ups) \ Given(ups)
(* Every part is aligned, in one of the blocks, and apart from the others;
   the space of elements is not in host memory, if the buffer is not. *)
Disjoint(p, q) == p[1] + p[2] <= q[1] \/ q[1] + q[2] <= p[1]
WellLaid(lay, blk, dev) ==
  /\ \A i \in DOMAIN lay : /\ lay[i][3] = 0
                           /\ \E b \in blk : b[2] <= lay[i][1] /\ lay[i][1] + lay[i][2] <= b[2] + b[3]
  /\ \A i, j \in DOMAIN lay : i < j => Disjoint(lay[i], lay[j])
Memory(ev) ==
  CASE ev.op \in {"buf", "bufv", "to"} -> WellLaid(ev.lay, Owned(ev.ups), ev.dev)
    [] ev.op = "mv" -> ev.ups = <<>> /\ WellLaid(ev.lay, objs[ev.o].blk, ev.dev)
    [] ev.op = "ma" -> Taken(ev.ups) = {} /\ Given(ev.ups) = objs[ev.t[1]].blk /\ WellLaid(ev.lay, objs[ev.o].blk, 0)
    [] ev.op = "free" -> Taken(ev.ups) = {} /\ (objs[ev.t[1]].k # "h" => Given(ev.ups) = objs[ev.t[1]].blk)
    [] OTHER -> TRUE
WithBlocks(ev, os) == IF ev.op \in {"buf", "bufv", "to"} THEN [os EXCEPT ![Len(os)].blk = Owned(ev.ups)] ELSE os

(* ------------------------------------------------------------ transfers *)
(* Directions: 0: to the device, 1: to the host, 2: within the host,
   3: within the device, 4: not said. *)
Fits(h, f, t) == CASE h = 0 -> f # 1 /\ t # 0
                   [] h = 1 -> f # 0 /\ t # 1
                   [] h = 2 -> f # 1 /\ t # 1
                   [] h = 3 -> f # 0 /\ t # 0
                   [] OTHER -> TRUE
Dev(p) == objs[p[1]].dev
CallerFits(ev) == CASE ev.op \in {"copy", "tv"} -> Fits(ev.hint, Dev(ev.f), Dev(ev.t))
                    [] ev.op = "to" -> Fits(ev.hint, Dev(ev.f), ev.dev)
                    [] OTHER -> TRUE
(* A jagged buffer with separate memory for the host's descriptors counts as
   one on a device, even if all of its memory is the host's. *)
AsIfDevice(ev, x) == x = <<0, 0, 0>> /\ (IF ev.op = "to" THEN ev.dev = 0 ELSE ev.op = "setup" /\ Dev(ev.t) = 0)
Transfers(ev) == /\ ev.oob = 0 /\ ev.dead = 0
                 /\ CallerFits(ev) => \A i \in DOMAIN ev.tr : Fits(ev.tr[i][1], ev.tr[i][2], ev.tr[i][3]) \/ AsIfDevice(ev, ev.tr[i])

Outcome(ev, a) == ev.op \in {"copy", "tv", "ss", "ms", "setup", "gs"} => /\ ev.thr \in a.thr
                                                                         /\ (ev.op = "gs" => ev.r = a.r)
Operation(ev) == \E a \in {After(ev)} :
  /\ Outcome(ev, a) = TRUE /\ Memory(ev) = TRUE /\ Transfers(ev) = TRUE /\ ev.g = 1
  /\ Seen(a.objs, ev.obs) = TRUE
  /\ objs' = WithBlocks(ev, Resolved(a.objs, ev.obs))

CpStep(ev) == CASE ev.e = "R" -> objs' = <<>>
                [] ev.e = "op" -> Operation(ev)
                [] ev.e = "drop" -> objs' = <<>> /\ ev.out = 0 /\ ev.bad = 0
                [] ev.e = "end" -> UNCHANGED objs
                [] OTHER -> FALSE
Sizes == \A o \in DOMAIN objs : \A i \in DOMAIN objs[o].rows : Len(objs[o].rows[i].v) = objs[o].rows[i].c
=============================================================================
