------------------------------- MODULE Cells -------------------------------
(***************************************************************************)
(* Fixed-size containers, views of memory, and tuples (C22, C23): a store  *)
(* of cells, and handles, each of which names some of the cells, in order. *)
(* Owning a thing means that its cells are named by nobody else, unless    *)
(* derived from it.  What is written through one handle is seen through    *)
(* all handles that name the same cells, and nowhere else.                 *)
(* A handle is [c: cells, z: number of the size variable (0: none), sh:    *)
(* lengths of rows (<<>>: not jagged), d: identity of the descriptor       *)
(* array]; a size variable cuts off the cells that are seen.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Unspec == 9999999
VARIABLES cells, sizes, hs, nd
cVars == <<cells, sizes, hs, nd>>
CInit == cells = <<>> /\ sizes = <<>> /\ hs = <<>> /\ nd = 0

Values(cs, h) == [i \in 1..(IF h.z = 0 THEN Len(h.c) ELSE sizes'[h.z]) |-> cs[h.c[i]]]
Shape(h) == IF h.z = 0 THEN h.sh ELSE <<sizes'[h.z]>>
Agree(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : s[i] = Unspec \/ s[i] = t[i]

(* Every handle is read as it should be: in all ways the same. *)
Observed(ev) ==
  /\ Len(ev.obs) = Len(hs') /\ ev.g = 1
  /\ \A h \in DOMAIN hs' : /\ ev.obs[h].un = 0 /\ ev.obs[h].sh = Shape(hs'[h])
                           /\ Len(ev.obs[h].rd) = 1 /\ ev.obs[h].rd[1] = Values(cells', hs'[h])

New(x, sh, z) == [c |-> [i \in 1..Len(x) |-> Len(cells) + i], z |-> z, sh |-> sh, d |-> nd + 1]
(* A thing of its own, with some elements; those that are not initialized
   have any value. *)
Own(ev) == /\ Agree(ev.x, ev.v)
           /\ cells' = cells \o ev.v
           /\ IF ev.rs = 1 THEN sizes' = Append(sizes, ev.sh[1]) /\ hs' = Append(hs, New(ev.x, <<>>, Len(sizes) + 1))
              ELSE UNCHANGED sizes /\ hs' = Append(hs, New(ev.x, ev.sh, 0))
           /\ nd' = nd + 1 + Len(ev.sh)
(* Names x[2] of the cells of o, from x[1] on; under the same description (x[3]
   = 1; of rows, from row x[5] on) or under a new one. *)
Sub(ev) == /\ hs' = Append(hs, [hs[ev.o] EXCEPT !.c = SubSeq(@, ev.x[1] + 1, ev.x[1] + ev.x[2]), !.d = IF ev.x[3] = 1 THEN @ + ev.x[5] ELSE nd + 1,
                                                !.z = IF ev.x[4] = 1 THEN @ ELSE 0, !.sh = IF ev.x[4] = 1 THEN @ ELSE ev.sh])
           /\ nd' = nd + 1 + Len(ev.sh) /\ UNCHANGED <<cells, sizes>>
(* The same, x[3] giving the handle whose size variable is used; or it gets
   one of its own, that starts at the number of the cells. *)
SubZ(ev) == /\ hs' = Append(hs, [c |-> SubSeq(hs[ev.o].c, ev.x[1] + 1, ev.x[1] + ev.x[2]), z |-> IF ev.x[3] = 0 THEN Len(sizes) + 1 ELSE hs[ev.x[3]].z,
                                  sh |-> <<>>, d |-> nd + 1])
            /\ sizes' = IF ev.x[3] = 0 THEN Append(sizes, ev.x[2]) ELSE sizes
            /\ nd' = nd + 1 /\ UNCHANGED cells
(* A thing of its own, with copies of the elements of o. *)
Copy(ev) == /\ hs' = Append(hs, New(hs[ev.o].c, hs[ev.o].sh, 0))
            /\ cells' = cells \o [i \in DOMAIN hs[ev.o].c |-> cells[hs[ev.o].c[i]]]
            /\ nd' = nd + 1 /\ UNCHANGED sizes
Bind(ev) == hs' = [hs EXCEPT ![ev.h] = hs[ev.o]] /\ UNCHANGED <<cells, sizes, nd>>
Assign(ev) == /\ cells' = [k \in DOMAIN cells |-> IF \E i \in DOMAIN hs[ev.h].c : hs[ev.h].c[i] = k
                                                  THEN cells[hs[ev.o].c[CHOOSE i \in DOMAIN hs[ev.h].c : hs[ev.h].c[i] = k]] ELSE cells[k]]
              /\ UNCHANGED <<sizes, hs, nd>>
Set(ev) == cells' = [cells EXCEPT ![hs[ev.h].c[ev.x[1] + 1]] = ev.x[2]] /\ UNCHANGED <<sizes, hs, nd>>
FillAll(ev) == /\ cells' = [k \in DOMAIN cells |-> IF k \in {hs[ev.h].c[i] : i \in DOMAIN hs[ev.h].c} THEN ev.x[1] ELSE cells[k]]
               /\ UNCHANGED <<sizes, hs, nd>>
Resize(ev) == sizes' = [sizes EXCEPT ![hs[ev.h].z] = ev.x[1]] /\ UNCHANGED <<cells, hs, nd>>
(* Checked access; i = Len(..) stands for every position that is too large. *)
At(ev) == /\ UNCHANGED cVars
          /\ LET c == hs[ev.h].c IN
             IF ev.x[1] >= Len(c) THEN ev.thr = 1 ELSE ev.thr = 0 /\ ev.r = cells[c[ev.x[1] + 1]]
(* Comparison of values, and of identities. *)
EqValues(ev) == /\ UNCHANGED cVars /\ ev.q = 1 - ev.r
                /\ ev.r = IF [i \in DOMAIN hs[ev.h].c |-> cells[hs[ev.h].c[i]]] = [i \in DOMAIN hs[ev.o].c |-> cells[hs[ev.o].c[i]]] THEN 1 ELSE 0
(* Views are equal if they describe the same memory.  (Nothing is said about
   empty ones that have different descriptions.)  The memory of a jagged view
   is the array that describes its rows. *)
EqViews(ev) ==
  LET a == hs[ev.h] b == hs[ev.o] IN
  /\ UNCHANGED cVars /\ ev.q = 1 - ev.r
  /\ IF ev.jag = 1 THEN IF Len(a.sh) # Len(b.sh) THEN ev.r = 0
                        ELSE IF a.d = b.d THEN ev.r = 1
                        ELSE a.sh # <<>> => ev.r = 0
     ELSE IF a.d = b.d THEN ev.r = 1
     ELSE a.c # <<>> \/ b.c # <<>> \/ a.z # b.z => ev.r = IF a.c = b.c /\ a.z = b.z THEN 1 ELSE 0
(* The end: everything has been returned. *)
Drop(ev) == hs' = <<>> /\ cells' = <<>> /\ sizes' = <<>> /\ nd' = 0 /\ ev.out = 0 /\ ev.bal = 0

CDo(ev) == CASE ev.op = "own" -> Own(ev)
             [] ev.op = "sub" -> Sub(ev)
             [] ev.op = "subz" -> SubZ(ev)
             [] ev.op = "copy" -> Copy(ev)
             [] ev.op = "bind" -> Bind(ev)
             [] ev.op = "asg" -> Assign(ev)
             [] ev.op = "set" -> Set(ev)
             [] ev.op = "fill" -> FillAll(ev)
             [] ev.op = "resize" -> Resize(ev)
             [] ev.op = "at" -> At(ev)
             [] ev.op = "eqv" -> EqValues(ev)
             [] ev.op = "eqm" -> EqViews(ev)

CStep(ev) == CASE ev.e = "R" -> cells' = <<>> /\ sizes' = <<>> /\ hs' = <<>> /\ nd' = 0
               [] ev.e = "op" -> CDo(ev) /\ Observed(ev)
               [] ev.e = "drop" -> Drop(ev)
               [] ev.e = "end" -> UNCHANGED cVars
               [] OTHER -> FALSE

Sound == /\ \A h \in DOMAIN hs : \A i \in DOMAIN hs[h].c : hs[h].c[i] \in DOMAIN cells
         /\ \A h \in DOMAIN hs : hs[h].z # 0 => sizes[hs[h].z] <= Len(hs[h].c)
=============================================================================
