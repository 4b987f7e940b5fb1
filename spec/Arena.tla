-------------------------------- MODULE Arena --------------------------------
(***************************************************************************)
(* The arena memory resource: rounding, first fit in address order,        *)
(* coalescing within each upstream block, the size limit (C07).  Events    *)
(* are those of module Heap.                                               *)
(*                                                                         *)
(* Left open: where in the chosen free range the block lies, how large new *)
(* upstream blocks are, and which range serves a request that made the     *)
(* arena go upstream.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

VARIABLE arena
  (* [init, max: sizes; super: position -> size; free: set of <<a, n>>;      *)
  (*  use: id -> [a, n]]                                                     *)

Unit == 256
Threshold == 262144
Round(sz) == ((sz + Unit - 1) \div Unit) * Unit
Max2(a, b) == IF a > b THEN a ELSE b

Total(super) == FoldSet(LAMBDA p, acc : super[p] + acc, 0, DOMAIN super)
OwnerOf(super, a) == CHOOSE p \in DOMAIN super : p <= a /\ a - p < super[p]

(* Giving back [a, a + n): merged with its free neighbours in the same     *)
(* upstream block.                                                         *)
Merge(super, free, a, n) ==
  LET o == OwnerOf(super, a)
      L == {f \in free : f[1] + f[2] = a /\ OwnerOf(super, f[1]) = o}
      R == {f \in free : f[1] = a + n /\ OwnerOf(super, f[1]) = o}
      lo == IF L = {} THEN a ELSE (CHOOSE f \in L : TRUE)[1]
      hi == IF R = {} THEN a + n ELSE LET r == CHOOSE f \in R : TRUE IN r[1] + r[2]
  IN (free \ (L \cup R)) \cup {<<lo, hi - lo>>}

Carve(free, f, a, n) ==
  (free \ {f}) \cup (IF a > f[1] THEN {<<f[1], a - f[1]>>} ELSE {})
               \cup (IF a + n < f[1] + f[2] THEN {<<a + n, f[1] + f[2] - a - n>>} ELSE {})

Fits(f, a, n) == f[1] <= a /\ a - f[1] <= f[2] - n /\ (a - f[1]) % Unit = 0

ArenaInit == arena = [init |-> 0, max |-> 0, super |-> <<>>, free |-> {}, use |-> <<>>]

ArenaCreate(ev) ==
  LET oks == {i \in DOMAIN ev.ups : ev.ups[i].k = "a" /\ ev.ups[i].r = "ok"}
      super == FoldSet(LAMBDA i, acc : (ev.ups[i].a :> ev.ups[i].sz) @@ acc, <<>>, oks) IN
  /\ \A i \in DOMAIN ev.ups : ev.ups[i].k = "a"
  /\ Total(super) <= ev.cfg[2]
  /\ ev.r = "bad" <=> (\E i \in DOMAIN ev.ups : ev.ups[i].r = "bad") \/ ev.cfg[1] > ev.cfg[2]
  /\ arena' = [init |-> ev.cfg[1], max |-> ev.cfg[2], super |-> super,
               free |-> {<<p, super[p]>> : p \in DOMAIN super}, use |-> <<>>]

ArenaTake(ev, free, super, f, n) ==
  arena' = [arena EXCEPT !.super = super, !.free = Carve(free, f, ev.a, n), !.use = (ev.id :> [a |-> ev.a, n |-> n]) @@ @]

ArenaAllocate(ev) ==
  IF ev.sz > 1073741824
  THEN ev.r = "bad" /\ ev.ups = <<>> /\ UNCHANGED arena
  ELSE
  LET n == Round(ev.sz)
      fit == {f \in arena.free : f[2] >= n}
      total == Total(arena.super)
      most == Max2(n, Max2(Threshold, arena.init)) IN       \* what a new block may reasonably be
  IF n < Threshold /\ fit # {}
  THEN LET f == CHOOSE x \in fit : \A y \in fit : x[1] <= y[1] IN
       /\ ev.ups = <<>> /\ ev.r = "ok" /\ Fits(f, ev.a, n)
       /\ ArenaTake(ev, arena.free, arena.super, f, n)
  ELSE IF ev.ups = <<>>
  THEN ev.r = "bad" /\ most > arena.max - total /\ UNCHANGED arena
  ELSE /\ Len(ev.ups) = 1
       /\ LET u == ev.ups[1] IN
          /\ u.k = "a" /\ u.sz >= n /\ u.sz <= arena.max - total
          /\ IF u.r = "ok"
             THEN LET super == (u.a :> u.sz) @@ arena.super
                      free == arena.free \cup {<<u.a, u.sz>>} IN
                  /\ ev.r = "ok"
                  /\ \E f \in free : Fits(f, ev.a, n) /\ ArenaTake(ev, free, super, f, n)
             ELSE ev.r = "bad" /\ UNCHANGED arena

ArenaDeallocate(ev) ==
  LET b == arena.use[ev.id] IN
  /\ ev.r = "ok" /\ ev.ups = <<>>
  /\ arena' = [arena EXCEPT !.use = [i \in DOMAIN @ \ {ev.id} |-> @[i]],
                            !.free = Merge(arena.super, arena.free, b.a, b.n)]

ArenaStep(ev) ==
  CASE ev.e = "R" -> ArenaCreate(ev)
    [] ev.e = "a" -> ArenaAllocate(ev)
    [] ev.e = "d" -> ArenaDeallocate(ev)
    [] ev.e \in {"z", "n"} -> ev.r = "ok" /\ ev.ups = <<>> /\ UNCHANGED arena
    [] ev.e \in {"m", "M", "D", "end"} -> UNCHANGED arena
    [] OTHER -> FALSE

ArenaInv ==
  /\ arena.super # <<>> => Total(arena.super) <= arena.max
  /\ \A f, g \in arena.free : f # g => \/ f[1] + f[2] < g[1] \/ g[1] + g[2] < f[1]
                                       \/ OwnerOf(arena.super, f[1]) # OwnerOf(arena.super, g[1])   \* never two neighbours
  /\ FoldSet(LAMBDA f, acc : f[2] + acc, 0, arena.free)
     + FoldSet(LAMBDA i, acc : arena.use[i].n + acc, 0, DOMAIN arena.use) = Total(arena.super)
  /\ arena.use = <<>> => arena.free = {<<p, arena.super[p]>> : p \in DOMAIN arena.super}
=============================================================================
