-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* The contract that every memory resource (or stack of resources) has     *)
(* with its client on one side, and with its upstream resource(s) on the   *)
(* other side.  One event per call of the public interface; what the call  *)
(* did upstream is a sequence of upstream events inside of that event.     *)
(*                                                                         *)
(*   event  [e |-> "R"]  a resource is made          [e |-> "D"] it dies   *)
(*          [e |-> "a", id, sz, al, r, a, ups, ok]   allocate              *)
(*          [e |-> "d", id, sz, al, r, a, ups, ok]   deallocate            *)
(*          [e |-> "z"|"n", r, ups, ok]  allocate(0) / deallocate(nullptr) *)
(*          [e |-> "m"|"M", r, ups, ok]  move construction / assignment    *)
(*   (r: "ok", "bad" (bad_alloc), "inval", "logic", "exc"; ok = 1: all the *)
(*   client's blocks still hold what the client has written into them)     *)
(*                                                                         *)
(*   upstream event u:  [k |-> "a"|"d"|"q", n, sz, al, r, a]               *)
(*      k = "a" an allocation request (r = "ok"/"bad", a = position)       *)
(*      k = "d" a deallocation        k = "q" a question to a client's     *)
(*      decision function or predicate (answer in n)                       *)
(*                                                                         *)
(* Positions are byte offsets in one address universe shared by all        *)
(* upstream resources, -1 standing for the null pointer.                   *)
(*                                                                         *)
(* The set g selects which clauses of the contract are enforced, so that   *)
(* each property is decided by its own clauses:                            *)
(*   "place"   live ranges are disjoint and lie in held blocks     (C01)   *)
(*   "data"    the resource does not write into live ranges        (C01)   *)
(*   "align"   addresses are aligned as requested                  (C02)   *)
(*   "return"  upstream blocks are returned once, as obtained      (C03)   *)
(*   "result"  a request gives memory or bad_alloc, justifiably    (C04)   *)
(*   "trivial" zero-sized and null requests have no effect         (C15)   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

VARIABLES
  held,     \* blocks held from upstream: position -> [sz, al, n]
  live,     \* what the client holds: id -> [a, sz, al]
  cfg       \* the resource: [kind, keeps, refuses, direct, alive]
            \*   keeps: all that is held is given back on destruction
            \*   refuses: may refuse a request that upstream did not refuse
            \*   direct: no other caching resource between it and upstream

heapVars == <<held, live, cfg>>

AllGuards == {"place", "data", "align", "return", "result", "trivial"}

Huge == 2147483647          \* sizes that do not fit are logged as this

Disjoint(a, n, b, m) == (b - a >= n) \/ (a - b >= m)     \* a + n might overflow

(* A range lies in one held block (a Huge one never does). *)
InHeld(h, a, n) == \E b \in DOMAIN h : b <= a /\ n <= h[b].sz /\ a - b <= h[b].sz - n

Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

(***************************************************************************)
(* Upstream side.                                                          *)
(***************************************************************************)
UpEffect(h, u) ==
  CASE u.k = "a" /\ u.r = "ok" /\ u.a >= 0 -> (u.a :> [sz |-> u.sz, al |-> u.al, n |-> u.n]) @@ h
    [] u.k = "d" /\ u.a \in DOMAIN h -> Without(h, u.a)
    [] OTHER -> h

(* A return must match the request that obtained the block; nothing of it  *)
(* may be in the client's hands, unless the resource is being destroyed.   *)
UpAllowed(h, l, dying, u) ==
  IF u.k # "d" \/ (u.a = -1 /\ u.sz = 0) THEN TRUE
  ELSE /\ u.a \in DOMAIN h
       /\ h[u.a] = [sz |-> u.sz, al |-> u.al, n |-> u.n]
       /\ dying \/ \A i \in DOMAIN l : Disjoint(l[i].a, l[i].sz, u.a, u.sz)

UpEffects(h, us) == FoldLeft(UpEffect, h, us)

UpsAllowed(h, l, dying, us) ==
  FoldLeft(LAMBDA acc, u : IF acc.ok /\ UpAllowed(acc.h, l, dying, u)
                           THEN [ok |-> TRUE, h |-> UpEffect(acc.h, u)]
                           ELSE [ok |-> FALSE, h |-> acc.h],
           [ok |-> TRUE, h |-> h], us).ok

SomeFailed(us) == \E i \in DOMAIN us : us[i].k = "a" /\ us[i].r = "bad"
Calls(us) == SelectSeq(us, LAMBDA u : u.k # "q")

(***************************************************************************)
(* Client side.                                                            *)
(***************************************************************************)
HeapInit ==
  /\ held = <<>>
  /\ live = <<>>
  /\ cfg = [kind |-> "none", keeps |-> FALSE, refuses |-> FALSE, direct |-> TRUE, alive |-> FALSE]

(* A resource comes to life; its constructor may already go upstream. *)
Create(g, ev) ==
  /\ ~cfg.alive
  /\ "result" \in g => (ev.r \in {"ok", "inval"} \/ SomeFailed(ev.ups) \/ ev.refuses = 1)
  /\ "return" \in g => UpsAllowed(<<>>, <<>>, FALSE, ev.ups)
  /\ held' = UpEffects(<<>>, ev.ups)
  /\ live' = <<>>
  /\ cfg' = [kind |-> ev.kind, keeps |-> ev.keeps = 1, refuses |-> ev.refuses = 1, direct |-> ev.direct = 1, alive |-> TRUE]

Allocate(g, ev) ==
  LET h == UpEffects(held, ev.ups) IN
  /\ cfg.alive /\ ev.sz > 0
  /\ "return" \in g => UpsAllowed(held, live, FALSE, ev.ups)
  /\ "data" \in g => ev.ok = 1
  /\ "result" \in g => ev.r \in {"ok", "bad"}
  /\ IF ev.r = "ok"
     THEN /\ "align" \in g => ev.a % ev.al = 0
          /\ "place" \in g => /\ InHeld(h, ev.a, ev.sz)
                              /\ \A i \in DOMAIN live : Disjoint(live[i].a, live[i].sz, ev.a, ev.sz)
          /\ "result" \in g => ev.a >= 0 /\ InHeld(h, ev.a, ev.sz)
          /\ live' = (ev.id :> [a |-> ev.a, sz |-> ev.sz, al |-> ev.al]) @@ live
     ELSE /\ "result" \in g => SomeFailed(ev.ups) \/ cfg.refuses \/ ev.sz = Huge
          /\ live' = live
  /\ held' = h
  /\ UNCHANGED cfg

Deallocate(g, ev) ==
  LET l == Without(live, ev.id) IN
  /\ cfg.alive
  /\ ev.id \in DOMAIN live
  /\ "data" \in g => ev.ok = 1
  /\ "result" \in g => ev.r = "ok"
  /\ "return" \in g => UpsAllowed(held, l, FALSE, ev.ups)
  /\ live' = l
  /\ held' = UpEffects(held, ev.ups)
  /\ UNCHANGED cfg

(* allocate(0), deallocate(nullptr): at most passed on as such. *)
TrivialUp(u) == u.k = "q" \/ (u.a = -1 /\ u.r = "ok" /\ (u.k = "a" => u.sz = 0))
Trivial(g, ev) ==
  /\ cfg.alive
  /\ "data" \in g => ev.ok = 1
  /\ "trivial" \in g => /\ ev.r = "ok" \/ (cfg.kind = "T" /\ ev.e = "z")
                        /\ \A i \in DOMAIN ev.ups : TrivialUp(ev.ups[i])
  /\ held' = UpEffects(held, ev.ups)
  /\ UNCHANGED <<live, cfg>>

(* Move construction or assignment of the resource object, the client's    *)
(* blocks being carried over.  The assigned-to object may have held blocks *)
(* of its own, which come and go within the same step.                     *)
Move(g, ev) ==
  /\ cfg.alive
  /\ "data" \in g => ev.ok = 1
  /\ "return" \in g => /\ UpsAllowed(held, live, FALSE, ev.ups)
                       /\ ev.r = "ok" /\ cfg.direct => UpEffects(held, ev.ups) = held
  /\ held' = UpEffects(held, ev.ups)
  /\ UNCHANGED <<live, cfg>>

(* The resource dies.  One that keeps blocks gives all of them back; one   *)
(* that does not still holds what its client did not return.               *)
Destroy(g, ev) ==
  /\ cfg.alive
  /\ "data" \in g => ev.ok = 1
  /\ "return" \in g => /\ UpsAllowed(held, live, TRUE, ev.ups)
                       /\ \/ UpEffects(held, ev.ups) = <<>>
                          \/ ~cfg.keeps /\ live # <<>>
  /\ held' = <<>>
  /\ live' = <<>>
  /\ cfg' = [cfg EXCEPT !.alive = FALSE]

HeapStep(g, ev) ==
  CASE ev.e = "R" -> Create(g, ev)
    [] ev.e = "a" -> Allocate(g, ev)
    [] ev.e = "d" -> Deallocate(g, ev)
    [] ev.e \in {"z", "n"} -> Trivial(g, ev)
    [] ev.e \in {"m", "M"} -> Move(g, ev)
    [] ev.e = "D" -> Destroy(g, ev)
    [] ev.e = "end" -> UNCHANGED heapVars
    [] OTHER -> FALSE

(***************************************************************************)
(* The properties, as state predicates of the contract.                    *)
(***************************************************************************)
LiveDisjoint == \A i, j \in DOMAIN live : i # j => Disjoint(live[i].a, live[i].sz, live[j].a, live[j].sz)
LiveInHeld   == \A i \in DOMAIN live : InHeld(held, live[i].a, live[i].sz)
LiveAligned  == \A i \in DOMAIN live : live[i].a % live[i].al = 0
HeldDisjoint == \A b, c \in DOMAIN held : b # c => Disjoint(b, held[b].sz, c, held[c].sz)
NothingHeldByTheDead == ~cfg.alive => held = <<>>
HeapInv == LiveDisjoint /\ LiveInHeld /\ LiveAligned /\ HeldDisjoint /\ NothingHeldByTheDead
=============================================================================
