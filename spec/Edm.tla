--------------------------------- MODULE Edm ---------------------------------
(***************************************************************************)
(* Structured containers: host containers, buffers, devices on top of       *)
(* them, and copies between them (C28 to C32).                             *)
(* A schema is a sequence of kinds: "s" (a scalar), "v" (a vector) and "j"  *)
(* (a jagged vector).  An object has, for every variable, a sequence of    *)
(* rows [c: capacity, s: size, v: what is in its memory]: one for a scalar *)
(* (of size one) or a vector, and any number for a jagged vector.          *)
(* Unspec stands for what an operation leaves open.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Unspec == 9999999
VARIABLES sch, es, objs
edmvars == <<sch, es, objs>>
NoObject == [live |-> 0, k |-> "f", dev |-> 0, vars |-> <<>>, blk |-> {}]
EdInit == sch = <<>> /\ es = <<>> /\ objs = <<>>

(* --------------------------------------------------------------- schema *)
Vars == DOMAIN sch
HasJ == \E i \in Vars : sch[i] = "j"
Common == {i \in Vars : sch[i] # "s"}     \* variables that have the container's size
Lead == CHOOSE i \in Common : \A j \in Common : i <= j
(* What the bytes b, b, .. and the default value look like. *)
Bytes(i, b) == IF es[i] = 1 THEN b ELSE 1000 + b
Default(i) == Bytes(i, 0)

(* -------------------------------------------------------------- objects *)
IsHost(o) == o.k = "h"
Length(o, i) == IF sch[i] = "v" THEN o.vars[i][1].s ELSE Len(o.vars[i])
Room(o, i) == IF sch[i] = "v" THEN o.vars[i][1].c ELSE Len(o.vars[i])
Consistent(o) == \A i, j \in Common : Length(o, i) = Length(o, j)
Size(o) == Length(o, Lead)
Full(v) == [c |-> Len(v), s |-> Len(v), v |-> v]
Resizable(o, i) == o.k = "r" /\ (IF HasJ THEN sch[i] = "j" ELSE sch[i] = "v")
ValOf(row) == SubSeq(row.v, 1, row.s)
Element(o, i) == [w \in Vars |-> CASE sch[w] = "s" -> <<o.vars[w][1].v[1]>>
                                   [] sch[w] = "v" -> <<o.vars[w][1].v[i + 1]>>
                                   [] OTHER -> ValOf(o.vars[w][i + 1])]
Within(v, off, t) == SubSeq(v, 1, off) \o t \o SubSeq(v, off + Len(t) + 1, Len(v))
Upd(x, f) == [objs EXCEPT ![x].vars = f]
Out(thr, os, r) == [thr |-> thr, objs |-> os, r |-> r]
Same(os) == Out({0}, os, <<>>)
Gone(os, x) == [os EXCEPT ![x] = NoObject]

(* ------------------------------------------------------ host containers *)
NewHost == [live |-> 1, k |-> "h", dev |-> 0, blk |-> {},
            vars |-> [i \in Vars |-> IF sch[i] = "s" THEN <<Full(<<Unspec>>)>> ELSE IF sch[i] = "v" THEN <<Full(<<>>)>> ELSE <<>>]]
Stretched(s, n, d) == [k \in 1..n |-> IF k <= Len(s) THEN s[k] ELSE d]
ResizeVar(o, i, n) == IF sch[i] = "s" THEN o.vars[i]
                      ELSE IF sch[i] = "v" THEN <<Full(Stretched(o.vars[i][1].v, n, Default(i)))>>
                      ELSE Stretched(o.vars[i], n, Full(<<>>))
HostResize(x, n) == Same(Upd(x, [i \in Vars |-> ResizeVar(objs[x], i, n)]))
HostResizeOne(x, w, n) == Same(Upd(x, [objs[x].vars EXCEPT ![w] = ResizeVar(objs[x], w, n)]))
HostRow(x, i, w, n) == Same(Upd(x, [objs[x].vars EXCEPT ![w][i + 1] = Full(Stretched(@.v, n, Default(w)))]))
HostSize(x) == IF Consistent(objs[x]) THEN Out({0}, objs, <<Size(objs[x])>>) ELSE Out({1}, objs, <<0>>)

(* ------------------------------------------------------------- elements *)
Get(x, i) == IF ~Consistent(objs[x]) THEN Out({1}, objs, <<>>)
             ELSE IF i >= Room(objs[x], Lead) THEN Out({3}, objs, <<>>)
             ELSE Out({0}, objs, Element(objs[x], i))
Set(x, i, w, j, v) == Same([objs EXCEPT ![x].vars[w] = CASE sch[w] = "s" -> [@ EXCEPT ![1].v[1] = v]
                                                         [] sch[w] = "v" -> [@ EXCEPT ![1].v[i + 1] = v]
                                                         [] OTHER -> [@ EXCEPT ![i + 1].v[j + 1] = v]])

(* -------------------------------------------------------------- buffers *)
NewRow(c, s) == [c |-> c, s |-> s, v |-> [j \in 1..c |-> Unspec]]
Caps(x) == IF x = <<>> THEN <<0>> ELSE x
NewBuffer(k, dev, x) ==
  [live |-> 1, k |-> k, dev |-> dev, blk |-> {},
   vars |-> [i \in Vars |-> CASE sch[i] = "s" -> <<NewRow(1, 1)>>
                              [] sch[i] = "v" -> (IF HasJ THEN <<NewRow(Len(x), Len(x))>> ELSE <<NewRow(Caps(x)[1], IF k = "r" THEN Unspec ELSE Caps(x)[1])>>)
                              [] OTHER -> [r \in DOMAIN x |-> NewRow(x[r], IF k = "r" THEN Unspec ELSE x[r])]]]
WithSizes(o, i, f) == IF Resizable(o, i) THEN [r \in DOMAIN o.vars[i] |-> [o.vars[i][r] EXCEPT !.s = f[r]]] ELSE o.vars[i]
SetUp(x) == Same(Upd(x, [i \in Vars |-> WithSizes(objs[x], i, [r \in DOMAIN objs[x].vars[i] |-> 0])]))
MemSet(x, b) == Same(Upd(x, [i \in Vars |-> [r \in DOMAIN objs[x].vars[i] |-> [objs[x].vars[i][r] EXCEPT !.v = [k \in 1..Len(@) |-> Bytes(i, b)]]]]))
DeviceSizes(o) == FoldLeftDomain(LAMBDA acc, i : IF sch[i] = "s" THEN acc ELSE acc \o <<Length(o, i), Room(o, i)>>, <<Size(o), Room(o, Lead)>>, sch)
PushDefault(x, n) ==
  LET k == Size(objs[x]) IN
  Out({0}, Upd(x, [i \in Vars |-> IF sch[i] = "s" THEN objs[x].vars[i]
                                  ELSE <<[objs[x].vars[i][1] EXCEPT !.s = k + n, !.v = Within(@, k, [j \in 1..n |-> Default(i)])]>>]),
      [j \in 1..n |-> k + j - 1])
SetRow(x, w, row, n) == Same(Upd(x, [i \in Vars |-> IF HasJ THEN (IF i = w THEN [objs[x].vars[i] EXCEPT ![row + 1].s = n] ELSE objs[x].vars[i])
                                                    ELSE WithSizes(objs[x], i, <<n>>)]))

(* --------------------------------------------------------------- copies *)
Misfit(f, t) == \E i \in Common :
  \/ sch[i] = "j" /\ (Len(f.vars[i]) > Len(t.vars[i]) \/ (0 < Len(f.vars[i]) /\ Len(f.vars[i]) < Len(t.vars[i])))
  \/ \E r \in DOMAIN f.vars[i] : r \in DOMAIN t.vars[i] /\ f.vars[i][r].s > t.vars[i][r].c
NothingInto(f, t) == \E i \in Vars : sch[i] = "j" /\ Len(f.vars[i]) = 0 /\ Len(t.vars[i]) > 0
Blurred(o) == [i \in Vars |-> [r \in DOMAIN o.vars[i] |-> [c |-> o.vars[i][r].c, s |-> IF Resizable(o, i) THEN Unspec ELSE o.vars[i][r].s,
                                                           v |-> [k \in DOMAIN o.vars[i][r].v |-> Unspec]]]]
(* Beyond the size of the source, space of a buffer may change; and so may
   that of a host's jagged vector, if it is in one piece. *)
OnePiece(o, i) == ~IsHost(o) \/ (sch[i] = "j" /\ Cardinality({r \in DOMAIN o.vars[i] : o.vars[i][r].c > 0}) <= 1)
NewRest(f, t, i, r) == [k \in 1..t.vars[i][r].c |-> IF k <= f.vars[i][r].s THEN f.vars[i][r].v[k]
                                                    ELSE IF OnePiece(t, i) THEN Unspec ELSE t.vars[i][r].v[k]]
Received(f, t) == [i \in Vars |-> [r \in DOMAIN t.vars[i] |-> [c |-> t.vars[i][r].c, s |-> IF Resizable(t, i) THEN f.vars[i][r].s ELSE t.vars[i][r].s, v |-> NewRest(f, t, i, r)]]]
Copies(x, y) ==
  IF ~Consistent(objs[x]) \/ ~Consistent(objs[y]) THEN Out({1}, objs, <<>>)
  ELSE IF NothingInto(objs[x], objs[y]) THEN Out({0, 1}, Upd(y, Blurred(objs[y])), <<>>)
  ELSE IF Misfit(objs[x], objs[y]) THEN Out({1}, Upd(y, Blurred(objs[y])), <<>>)
  ELSE Same(Upd(y, Received(objs[x], objs[y])))
ToHost(x, y) == Same(Upd(y, [i \in Vars |-> [r \in DOMAIN objs[x].vars[i] |-> Full(ValOf(objs[x].vars[i][r]))]]))

After(ev) ==
  CASE ev.op = "host" -> Same(Append(objs, NewHost))
    [] ev.op = "hc" -> Same(Append(objs, objs[ev.f]))
    [] ev.op = "hr" -> HostResize(ev.t, ev.x[1])
    [] ev.op = "hv" -> Out({0}, objs, <<1>>)
    [] ev.op = "hx" -> HostResizeOne(ev.t, ev.x[1] + 1, ev.x[2])
    [] ev.op = "hrow" -> HostRow(ev.t, ev.x[1], ev.x[2] + 1, ev.x[3])
    [] ev.op = "sz" -> HostSize(ev.t)
    [] ev.op = "get" -> Get(ev.t, ev.x[1])
    [] ev.op = "set" -> Set(ev.t, ev.x[1], ev.x[2] + 1, ev.x[3], ev.x[4])
    [] ev.op = "buf" -> Same(Append(objs, NewBuffer(ev.k, ev.dev, ev.x)))
    [] ev.op = "setup" -> SetUp(ev.t)
    [] ev.op = "ms" -> MemSet(ev.t, ev.x[1])
    [] ev.op = "di" -> Out({0}, objs, DeviceSizes(objs[ev.t]))
    [] ev.op = "dpb" -> PushDefault(ev.t, Len(ev.r))
    [] ev.op = "rz" -> SetRow(ev.t, ev.x[1] + 1, ev.x[2], ev.x[3])
    [] ev.op = "copy" -> Copies(ev.f, ev.t)
    [] ev.op = "tv" -> ToHost(ev.f, ev.t)
    [] ev.op = "gs" -> Out({0}, objs, <<Size(objs[ev.t])>>)
    [] ev.op = "mv" -> Same(Append(Gone(objs, ev.f), objs[ev.f]))
    [] ev.op = "ma" -> Same(Gone([objs EXCEPT ![ev.t] = objs[ev.f]], ev.f))
    [] ev.op = "free" -> Same(Gone(objs, ev.t))
    [] ev.op = "wait" -> Same(objs)

(* --------------------------------------------------------- what is seen *)
(* n: 0: as given, 1: not observable now, 2: gone, 3: as seen last time. *)
Agree(a, b) == a = Unspec \/ a = b
AgreeSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Agree(s[i], t[i])
SeenVar(rows, c, s, v) == Len(rows) = Len(c) /\ \A r \in DOMAIN rows : rows[r].c = c[r] /\ Agree(rows[r].s, s[r]) /\ AgreeSeq(rows[r].v, v[r])
SeenAs(o, b) == CASE b.n = 2 -> o.live = 0
                  [] b.n = 1 -> o.live = 1
                  [] b.n = 0 -> o.live = 1 /\ b.dd = 1 /\ \A i \in Vars : SeenVar(o.vars[i], b.c[i], b.s[i], b.v[i])
                  [] OTHER -> FALSE
SameRow(p, q) == p.c = q.c /\ Agree(p.s, q.s) /\ AgreeSeq(p.v, q.v)
SameVars(o, p) == o.live = 1 /\ \A i \in Vars : Len(o.vars[i]) = Len(p.vars[i]) /\ \A r \in DOMAIN o.vars[i] : SameRow(o.vars[i][r], p.vars[i][r])
Seen(os, b) == Len(os) = Len(b) /\ \A i \in DOMAIN os : IF b[i].n = 3 THEN i \in DOMAIN objs /\ SameVars(os[i], objs[i]) ELSE SeenAs(os[i], b[i])
Resolve(o, b) == [o EXCEPT !.vars = [i \in Vars |-> [r \in DOMAIN o.vars[i] |-> [c |-> b.c[i][r], s |-> b.s[i][r], v |-> b.v[i][r]]]]]
Resolved(os, b) == [i \in DOMAIN os |-> IF b[i].n = 3 THEN [os[i] EXCEPT !.vars = objs[i].vars] ELSE IF b[i].n = 0 THEN Resolve(os[i], b[i]) ELSE os[i]]

(* --------------------------------------------- memory and transfers: as in Copy *)
Taken(ups) == {<<ups[i][2], ups[i][3], ups[i][4]>> : i \in {j \in DOMAIN ups : ups[j][1] = "a"}}
Given(ups) == {<<ups[i][2], ups[i][3], ups[i][4]>> : i \in {j \in DOMAIN ups : ups[j][1] = "d"}}
Owned(ups) == Taken(ups) \ Given(ups)
Disjoint(p, q) == p[1] + p[2] <= q[1] \/ q[1] + q[2] <= p[1]
WellLaid(lay, blk) ==
  /\ \A i \in DOMAIN lay : /\ lay[i][3] = 0
                           /\ \E b \in blk : b[2] <= lay[i][1] /\ lay[i][1] + lay[i][2] <= b[2] + b[3]
  /\ \A i, j \in DOMAIN lay : i < j => Disjoint(lay[i], lay[j])
Memory(ev) ==
  CASE ev.op = "buf" -> WellLaid(ev.lay, Owned(ev.ups))
    [] ev.op = "mv" -> ev.ups = <<>> /\ WellLaid(ev.lay, objs[ev.f].blk)
    [] ev.op = "ma" -> Taken(ev.ups) = {} /\ Given(ev.ups) = objs[ev.t].blk /\ WellLaid(ev.lay, objs[ev.f].blk)
    [] ev.op = "free" -> Taken(ev.ups) = {} /\ (objs[ev.t].k # "h" => Given(ev.ups) = objs[ev.t].blk)
    [] OTHER -> TRUE
WithBlocks(ev, os) == IF ev.op = "buf" THEN [os EXCEPT ![Len(os)].blk = Owned(ev.ups)] ELSE os
Fits(h, f, t) == CASE h = 0 -> f # 1 /\ t # 0
                   [] h = 1 -> f # 0 /\ t # 1
                   [] h = 2 -> f # 1 /\ t # 1
                   [] h = 3 -> f # 0 /\ t # 0
                   [] OTHER -> TRUE
CallerFits(ev) == IF ev.op \in {"copy", "tv"} THEN Fits(ev.hint, objs[ev.f].dev, objs[ev.t].dev) ELSE TRUE
AsIfDevice(ev, x) == x = <<0, 0, 0>> /\ ev.op = "setup" /\ objs[ev.t].dev = 0
Transfers(ev) == /\ ev.oob = 0 /\ ev.dead = 0
                 /\ CallerFits(ev) => \A i \in DOMAIN ev.tr : Fits(ev.tr[i][1], ev.tr[i][2], ev.tr[i][3]) \/ AsIfDevice(ev, ev.tr[i])

Outcome(ev, a) == /\ ev.op \in {"hr", "hv", "sz", "get", "copy", "tv", "ms", "setup", "gs"} => ev.thr \in a.thr
                  /\ ev.op \in {"hv", "di", "dpb"} => ev.r = a.r
                  /\ ev.op = "di" => ev.views = 1      \* all views of it tell the same
                  /\ ev.op \in {"sz", "gs"} => AgreeSeq(a.r, ev.r)
                  /\ ev.op = "get" => (Len(ev.r) = Len(a.r) /\ \A i \in DOMAIN a.r : AgreeSeq(a.r[i], ev.r[i]))
Operation(ev) == \E a \in {After(ev)} :
  /\ Outcome(ev, a) = TRUE /\ Memory(ev) = TRUE /\ Transfers(ev) = TRUE /\ ev.g = 1
  /\ Seen(a.objs, ev.obs) = TRUE
  /\ objs' = WithBlocks(ev, Resolved(a.objs, ev.obs)) /\ UNCHANGED <<sch, es>>

EdStep(ev) == CASE ev.e = "R" -> objs' = <<>> /\ sch' = ev.sch /\ es' = ev.es
                [] ev.e = "op" -> Operation(ev)
                [] ev.e = "drop" -> objs' = <<>> /\ ev.out = 0 /\ ev.bad = 0 /\ UNCHANGED <<sch, es>>
                [] ev.e = "end" -> UNCHANGED edmvars
                [] OTHER -> FALSE
(* Variables have the same size, except in host containers where they have
   been given different ones. *)
Shapes == \A o \in DOMAIN objs : objs[o].live = 1 =>
            /\ \A i \in Vars : \A r \in DOMAIN objs[o].vars[i] : Len(objs[o].vars[i][r].v) = objs[o].vars[i][r].c
            /\ objs[o].k # "h" => Consistent(objs[o])
=============================================================================
