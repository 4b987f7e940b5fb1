-------------------------------- MODULE Buddy --------------------------------
(***************************************************************************)
(* The binary page memory resource as a buddy allocator (C06).  Events are *)
(* those of module Heap.                                                   *)
(*                                                                         *)
(* The free pages are not part of the state: they follow from the pages in *)
(* use, as the largest naturally placed power-of-two pieces of the         *)
(* superpages with nothing in use inside ("merged as long as the buddy is  *)
(* entirely free").  Left open: which of several smallest free pages is    *)
(* halved, which half is used, and how large new superpages are.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

VARIABLE buddy
  (* [super: position -> size, use: id -> [a, n]] *)

MinPage == 256
Granule(size) == IF size \div 256 > MinPage THEN size \div 256 ELSE MinPage   \* smallest page of a superpage

RECURSIVE Pow2At(_, _)
Pow2At(p, n) == IF p >= n THEN p ELSE Pow2At(2 * p, n)
PageSize(sz) == Pow2At(MinPage, sz)                                          \* sz <= 2^30
RECURSIVE IsPow2(_)
IsPow2(n) == n = 1 \/ (n > 1 /\ n % 2 = 0 /\ IsPow2(n \div 2))

(* The free pages within the page [a, a + n), U being the pages in use in it. *)
RECURSIVE FreePages(_, _, _)
FreePages(a, n, U) ==
  IF U = {} THEN {<<a, n>>}
  ELSE IF <<a, n>> \in U THEN {}
  ELSE LET h == n \div 2 IN
       FreePages(a, h, {u \in U : u[1] < a + h}) \cup FreePages(a + h, h, {u \in U : u[1] >= a + h})

InUse == {<<buddy.use[i].a, buddy.use[i].n>> : i \in DOMAIN buddy.use}
InsideOf(p) == {u \in InUse : p <= u[1] /\ u[1] - p < buddy.super[p]}
FreeIn(p) == FreePages(p, buddy.super[p], InsideOf(p))

(* Free pages that can serve a request for a page of n bytes. *)
Usable(n) == UNION {{f \in FreeIn(p) : f[2] >= n} : p \in {q \in DOMAIN buddy.super : n >= Granule(buddy.super[q])}}

BuddyInit == buddy = [super |-> <<>>, use |-> <<>>]

BuddyCreate(ev) == ev.r = "ok" /\ ev.ups = <<>> /\ buddy' = [super |-> <<>>, use |-> <<>>]

PlacedIn(a, n, page) == a >= page[1] /\ a - page[1] <= page[2] - n /\ (a - page[1]) % n = 0

BuddyAllocate(ev) ==
  IF ev.sz > 1073741824
  THEN ev.r = "bad" /\ (\A i \in DOMAIN ev.ups : ev.ups[i].r = "bad") /\ UNCHANGED buddy
  ELSE
  LET n == PageSize(ev.sz)
      cands == Usable(n) IN
  IF cands # {}
  THEN LET m == CHOOSE x \in {f[2] : f \in cands} : \A f \in cands : x <= f[2] IN
       /\ ev.ups = <<>> /\ ev.r = "ok"
       /\ \E f \in cands : f[2] = m /\ PlacedIn(ev.a, n, f)
       /\ buddy' = [buddy EXCEPT !.use = (ev.id :> [a |-> ev.a, n |-> n]) @@ @]
  ELSE /\ Len(ev.ups) = 1
       /\ LET u == ev.ups[1] IN
          /\ u.k = "a" /\ u.sz >= n /\ IsPow2(u.sz) /\ n >= Granule(u.sz)
          /\ IF u.r = "ok"
             THEN /\ ev.r = "ok" /\ PlacedIn(ev.a, n, <<u.a, u.sz>>)
                  /\ buddy' = [super |-> (u.a :> u.sz) @@ buddy.super,
                               use |-> (ev.id :> [a |-> ev.a, n |-> n]) @@ buddy.use]
             ELSE ev.r = "bad" /\ UNCHANGED buddy

BuddyDeallocate(ev) ==
  /\ ev.r = "ok" /\ ev.ups = <<>>
  /\ buddy' = [buddy EXCEPT !.use = [i \in DOMAIN @ \ {ev.id} |-> @[i]]]

BuddyStep(ev) ==
  CASE ev.e = "R" -> BuddyCreate(ev)
    [] ev.e = "a" -> BuddyAllocate(ev)
    [] ev.e = "d" -> BuddyDeallocate(ev)
    [] ev.e \in {"z", "n", "m", "M"} -> ev.r = "ok" /\ ev.ups = <<>> /\ UNCHANGED buddy
    [] ev.e \in {"D", "end"} -> UNCHANGED buddy
    [] OTHER -> FALSE

(* Pages in use lie naturally in one superpage each, and do not overlap; an *)
(* empty superpage is a single free page.                                  *)
BuddyInv ==
  /\ \A i \in DOMAIN buddy.use : \E p \in DOMAIN buddy.super : PlacedIn(buddy.use[i].a, buddy.use[i].n, <<p, buddy.super[p]>>)
  /\ \A i, j \in DOMAIN buddy.use : i # j => \/ buddy.use[i].a + buddy.use[i].n <= buddy.use[j].a
                                            \/ buddy.use[j].a + buddy.use[j].n <= buddy.use[i].a
  /\ InUse = {} => \A p \in DOMAIN buddy.super : FreeIn(p) = {<<p, buddy.super[p]>>}
  /\ \A p \in DOMAIN buddy.super :
       \E F \in {FreeIn(p)} : \E inside \in {InsideOf(p)} :
       /\ FoldSet(LAMBDA x, acc : x[2] + acc, 0, F \cup inside) = buddy.super[p]
       /\ \A f, g \in F : f # g /\ f[2] = g[2] => ((f[1] - p) \div f[2]) \div 2 # ((g[1] - p) \div g[2]) \div 2
=============================================================================
