------------------------------- MODULE Contig -------------------------------
(***************************************************************************)
(* The contiguous memory resource: one block, carved in order (C08).       *)
(* Events are those of module Heap.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

VARIABLE contig      \* [next, end, up (the upstream block), ids]
Huge31 == 2147483647

AlignUp(p, al) == ((p + al - 1) \div al) * al

ContigInit == contig = [next |-> 0, end |-> 0, up |-> <<>>]

ContigCreate(ev) ==
  /\ Len(ev.ups) = 1 /\ ev.ups[1].k = "a" /\ ev.ups[1].sz = ev.cfg[1]
  /\ ev.r = ev.ups[1].r
  /\ contig' = IF ev.r = "ok" THEN [next |-> ev.ups[1].a, end |-> ev.ups[1].a + ev.cfg[1], up |-> ev.ups]
                              ELSE [next |-> 0, end |-> 0, up |-> <<>>]

ContigAllocate(ev) ==
  LET p == AlignUp(contig.next, ev.al)
      fits == p <= contig.end /\ ev.sz <= contig.end - p IN
  /\ ev.ups = <<>>
  /\ IF fits THEN ev.r = "ok" /\ ev.a = p /\ contig' = [contig EXCEPT !.next = p + ev.sz]
             ELSE ev.r = "bad" /\ UNCHANGED contig

(* Destruction returns the one block as it was obtained. *)
ContigDestroy(ev) ==
  /\ IF contig.up = <<>> THEN ev.ups = <<>>
     ELSE /\ Len(ev.ups) = 1 /\ ev.ups[1].k = "d" /\ ev.ups[1].a = contig.up[1].a
          /\ ev.ups[1].sz = contig.up[1].sz /\ ev.ups[1].al = contig.up[1].al
  /\ contig' = [next |-> 0, end |-> 0, up |-> <<>>]

(* A move keeps the block.  (In a move assignment the object assigned to    *)
(* may have had a block of its own, which goes away.)                       *)
ContigMove(ev) ==
  /\ \A i \in DOMAIN ev.ups : ev.ups[i].k = "d" => contig.up = <<>> \/ ev.ups[i].a # contig.up[1].a
  /\ ev.e = "m" => ev.ups = <<>>
  /\ UNCHANGED contig

ContigStep(ev) ==
  CASE ev.e = "R" -> ContigCreate(ev)
    [] ev.e = "a" -> ContigAllocate(ev)
    [] ev.e \in {"d", "z", "n"} -> ev.r = "ok" /\ ev.ups = <<>> /\ UNCHANGED contig
    [] ev.e \in {"m", "M"} -> ContigMove(ev)
    [] ev.e = "D" -> ContigDestroy(ev)
    [] ev.e = "end" -> UNCHANGED contig
    [] OTHER -> FALSE

ContigInv == contig.up # <<>> => contig.up[1].a <= contig.next /\ contig.next <= contig.end
=============================================================================
