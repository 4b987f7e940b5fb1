------------------------------ MODULE MCCells ------------------------------
(* All histories of a few handles: what can be owned, derived from what,   *)
(* copied, bound, assigned, compared and written through is a parameter.   *)
EXTENDS Cells
CONSTANTS Owned,      \* <<kind, n, sh, rs>>: things that can be owned
          Derived,    \* <<kind, kind it is derived from, how, keep>>: how: all cells,
                      \* the first (pre) or some (cut), one row, some rows; keep = 1:
                      \* under the same description
          Copied,     \* <<kind, kind it is a copy of>>
          Sized,      \* <<kind, kind>>: views of another thing, with a size variable
          Bound, Assigned, Compared, SameMem,     \* <<kind, kind>>
          Writable, Filled, Checked, Resizable,   \* kinds
          MaxHandles, MaxCalls, Name
VARIABLES kinds, hist, calls
mcvars == <<cVars, kinds, hist, calls>>
FixedOwned == {<<"s", 2, <<>>, 0>>, <<"a", 2, <<>>, 0>>, <<"A", 2, <<>>, 0>>}
FixedDerived == {<<"d", "a", "pre", 0>>, <<"d", "A", "pre", 0>>, <<"d", "d", "pre", 0>>, <<"k", "d", "pre", 0>>, <<"k", "A", "pre", 0>>}
FixedCopied == {<<"s", "s">>}
FixedBound == {<<"d", "d">>, <<"k", "k">>}
FixedAssigned == {<<"s", "s">>}
TupleOwned == {<<"v", 2, <<>>, 0>>, <<"t", 2, <<>>, 0>>, <<"u", 3, <<>>, 0>>}
TupleDerived == {<<"w", "v", "all", 0>>}
TupleCopied == {"t", "u"} \X {"t", "u", "w"}
ViewOwned == {<<"m", 2, <<>>, 0>>, <<"n", 0, <<>>, 0>>, <<"z", 2, <<>>, 1>>}
ViewDerived == {<<"v", "m", "all", 0>>, <<"c", "m", "all", 0>>, <<"v", "n", "all", 0>>} \cup
               {<<"v", "z", "all", 1>>, <<"c", "z", "all", 1>>, <<"c", "v", "all", 1>>, <<"d", "v", "all", 1>>, <<"e", "c", "all", 1>>, <<"e", "v", "all", 1>>} \cup
               {<<"v", "v", "cut", 0>>, <<"c", "c", "cut", 0>>}
ViewSized == {"v"} \X {"z", "v"}
ViewBound == {<<"v", "v">>, <<"c", "v">>, <<"c", "c">>, <<"d", "d">>, <<"e", "e">>}
ViewSame == {"v", "c", "z"} \X {"v", "c", "z"}
RowsOwned == {<<"j", 2, <<1, 0, 1>>, 0>>, <<"J", 0, <<>>, 0>>, <<"J", 2, <<2>>, 0>>}
RowsDerived == {<<"D", "j", "all", 0>>, <<"E", "j", "all", 0>>, <<"D", "J", "all", 0>>} \cup
               {<<"V", "D", "all", 1>>, <<"W", "D", "all", 1>>, <<"W", "E", "all", 1>>, <<"W", "V", "all", 1>>, <<"X", "V", "all", 1>>, <<"X", "D", "all", 1>>, <<"Y", "W", "all", 1>>} \cup
               {<<"v", "V", "row", 0>>, <<"d", "X", "row", 0>>, <<"e", "X", "row", 0>>, <<"e", "Y", "row", 0>>, <<"v", "j", "row", 0>>, <<"V", "V", "rows", 1>>, <<"W", "E", "rows", 1>>}
RowsBound == {<<"V", "V">>, <<"V", "D">>, <<"W", "V">>, <<"W", "W">>, <<"X", "X">>, <<"Y", "Y">>}
RowsSame == {"D", "E", "V", "W"} \X {"D", "E", "V", "W"} \cup {<<"v", "v">>}
Jagged == {"j", "J", "g", "D", "E", "V", "W", "X", "Y"}
None == {}

St(x) == ToString(x)
MCInit == CInit /\ kinds = <<>> /\ hist = <<>> /\ calls = 0
Say(f, h, x) == FoldLeft(LAMBDA a, b : a \o " " \o St(b), f, h \o x)
Add(k, text) == kinds' = Append(kinds, k) /\ hist' = Append(hist, text)
Keep(text) == kinds' = kinds /\ hist' = Append(hist, text)
Hs == DOMAIN hs
Room == Len(hs) < MaxHandles
Fresh(n) == [i \in 1..n |-> 10 * calls + i]
DoOwn == \E o \in Owned :
           /\ Room
           /\ Own([x |-> Fresh(o[2]), v |-> Fresh(o[2]), sh |-> IF o[4] = 1 THEN <<o[2]>> ELSE o[3], rs |-> o[4]])
           /\ Add(o[1], Say("own " \o o[1], IF o[1] \in Jagged THEN o[3] ELSE <<o[2]>>, <<>>))
SumTo(sh, k) == FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(sh, 1, k))
(* What is taken of h: [x, sh, how it is said]. *)
Parts(h, o, d) ==
  CASE d[3] = "all" -> {[x |-> <<0, Len(h.c), d[4], 1, 0>>, sh |-> h.sh, t |-> "sub " \o d[1], a |-> <<>>]}
    [] d[3] = "pre" -> {[x |-> <<0, n, 0, 0, 0>>, sh |-> <<>>, t |-> "sub " \o d[1], a |-> <<n>>] : n \in 1..Len(h.c)}
    [] d[3] = "cut" -> {[x |-> <<p[1], p[2], 0, 0, 0>>, sh |-> <<>>, t |-> "cut " \o d[1], a |-> p] : p \in {q \in (0..Len(h.c)) \X (0..Len(h.c)) : q[1] + q[2] <= Len(h.c)}}
    [] d[3] = "row" -> {[x |-> <<SumTo(h.sh, i), h.sh[i + 1], 0, 0, 0>>, sh |-> <<>>, t |-> "row " \o d[1], a |-> <<i>>] : i \in 0..(Len(h.sh) - 1)}
    [] d[3] = "rows" -> {[x |-> <<SumTo(h.sh, p[1]), SumTo(SubSeq(h.sh, p[1] + 1, Len(h.sh)), p[2]), 1, 0, p[1]>>, sh |-> SubSeq(h.sh, p[1] + 1, p[1] + p[2]), t |-> "rows " \o d[1], a |-> p]
                         : p \in {q \in (0..Len(h.sh)) \X (0..Len(h.sh)) : q[1] + q[2] <= Len(h.sh)}}
DoSub == \E d \in Derived : \E o \in Hs :
           /\ Room /\ kinds[o] = d[2]
           /\ \E q \in Parts(hs[o], o, d) : Sub([o |-> o, x |-> q.x, sh |-> q.sh]) /\ Add(d[1], Say(q.t, <<o>>, q.a))
(* All cells of o, with a size variable. *)
DoSubZ == \E d \in Sized : \E o \in Hs : \E z \in {0} \cup {h \in Hs : kinds[h] \in Resizable /\ hs[h].z # 0 /\ Len(hs[h].c) = Len(hs[o].c)} :
            /\ Room /\ kinds[o] = d[2] /\ SubZ([o |-> o, x |-> <<0, Len(hs[o].c), z>>])
            /\ Add(d[1], Say("zed " \o d[1], <<o>>, <<0, Len(hs[o].c), z>>))
DoCopy == \E d \in Copied : \E o \in Hs : /\ Room /\ kinds[o] = d[2] /\ Copy([o |-> o])
                                          /\ Add(d[1], Say("copy " \o d[1], <<o>>, <<>>))
Pair(S) == {p \in Hs \X Hs : <<kinds[p[1]], kinds[p[2]]>> \in S /\ Len(hs[p[1]].c) = Len(hs[p[2]].c)}
Free(S) == {p \in Hs \X Hs : <<kinds[p[1]], kinds[p[2]]>> \in S}
(* Views can describe anything; device arrays have a fixed length. *)
DoBind == \E p \in {q \in Free(Bound) : kinds[q[1]] \in {"d", "k"} => Len(hs[q[1]].c) = Len(hs[q[2]].c)} : Bind([h |-> p[1], o |-> p[2]]) /\ Keep(Say("bind", p, <<>>))
DoAssign == \E p \in Pair(Assigned) : Assign([h |-> p[1], o |-> p[2]]) /\ Keep(Say("asg", p, <<>>))
Bit(b) == IF b THEN 1 ELSE 0
DoEqv == \E p \in Pair(Compared) : \E r \in 0..1 : EqValues([h |-> p[1], o |-> p[2], r |-> r, q |-> 1 - r]) /\ Keep(Say("eqv", p, <<>>))
DoEqm == \E p \in Free(SameMem) : \E r \in 0..1 : EqViews([h |-> p[1], o |-> p[2], r |-> r, q |-> 1 - r, jag |-> Bit(kinds[p[1]] \in Jagged)]) /\ Keep(Say("eqm", p, <<>>))
DoSet == \E h \in Hs : \E i \in 0..(Len(hs[h].c) - 1) :
           kinds[h] \in Writable /\ Set([h |-> h, x |-> <<i, 10 * calls>>]) /\ Keep(Say("set", <<h>>, <<i, 10 * calls>>))
DoFill == \E h \in Hs : kinds[h] \in Filled /\ FillAll([h |-> h, x |-> <<10 * calls>>]) /\ Keep(Say("fill", <<h>>, <<10 * calls>>))
DoSize == \E h \in Hs : \E n \in 0..Len(hs[h].c) : kinds[h] \in Resizable /\ hs[h].z # 0 /\ Resize([h |-> h, x |-> <<n>>]) /\ Keep(Say("size", <<h>>, <<n>>))
DoAt == \E h \in Hs : \E i \in 0..Len(hs[h].c) : \E b \in 0..1 : \E v \in {IF i < Len(hs[h].c) THEN cells[hs[h].c[i + 1]] ELSE 0} :
          kinds[h] \in Checked /\ At([h |-> h, x |-> <<i>>, thr |-> b, r |-> v]) /\ Keep(Say("at", <<h>>, <<i>>))
MCNext == /\ calls < MaxCalls /\ calls' = calls + 1
          /\ \/ DoOwn \/ DoSub \/ DoSubZ \/ DoCopy \/ DoBind \/ DoAssign \/ DoEqv \/ DoEqm \/ DoSet \/ DoFill \/ DoAt \/ DoSize
MCSpec == MCInit /\ [][MCNext]_mcvars
MCView == <<kinds, hs, sizes, calls, IF hist = <<>> THEN "" ELSE hist[Len(hist)]>>
Join(s) == FoldLeft(LAMBDA acc, x : acc \o ";" \o x, "", s)
Emit == PrintT("@@ " \o Name \o Join(hist'))
(* Things that are owned separately share nothing. *)
Roots(h) == {hs[h].c[i] : i \in DOMAIN hs[h].c}
Owners == {o[1] : o \in Owned}
Apart == \A g, h \in Hs : kinds[g] \in Owners /\ kinds[h] \in Owners /\ g # h => Roots(g) \cap Roots(h) = {}
(* Only what a step writes through a handle changes. *)
CellsKept == [][\A k \in DOMAIN cells : k \in DOMAIN cells']_mcvars
(* Two views of the same memory hold the same, whatever happens. *)
SameSeen == \A g, h \in Hs : hs[g].c = hs[h].c => [i \in DOMAIN hs[g].c |-> cells[hs[g].c[i]]] = [i \in DOMAIN hs[h].c |-> cells[hs[h].c[i]]]
=============================================================================
