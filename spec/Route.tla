-------------------------------- MODULE Route --------------------------------
(***************************************************************************)
(* Resources without memory of their own, which pass requests on:          *)
(*   X choice, Q conditional, L coalescing  (C09)                          *)
(*   I identity, S synchronized, T terminal (C15)                          *)
(* Events are those of module Heap; the resource sits directly on upstream *)
(* resources with the numbers ev.kids.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

VARIABLE route       \* [kind, kids, owner: id -> number of the upstream]

RouteInit == route = [kind |-> "none", kids |-> <<>>, owner |-> <<>>]

Asked(us) == SelectSeq(us, LAMBDA u : u.k = "q")
Called(us) == SelectSeq(us, LAMBDA u : u.k # "q")

(* Every request that reaches an upstream is the client's, unchanged. *)
Forwarded(ev, u) == u.k = "a" /\ u.sz = ev.sz /\ u.al = ev.al
FromUp(ev, u) == ev.r = u.r /\ (u.r = "ok" => ev.a = u.a)

RouteCreate(ev) ==
  /\ ev.r = "ok" /\ ev.ups = <<>>
  /\ route' = [kind |-> ev.kind, kids |-> ev.kids, owner |-> <<>>]

RouteAllocate(ev) ==
  LET qs == Asked(ev.ups)  cs == Called(ev.ups)
      own(n) == route' = [route EXCEPT !.owner = IF ev.r = "ok" THEN (ev.id :> n) @@ @ ELSE @] IN
  /\ \A i \in DOMAIN qs : qs[i].sz = ev.sz /\ qs[i].al = ev.al
  /\ \A i \in DOMAIN cs : Forwarded(ev, cs[i])
  /\ CASE route.kind \in {"I", "S"} ->
            /\ qs = <<>> /\ Len(cs) = 1 /\ cs[1].n = route.kids[1] /\ FromUp(ev, cs[1]) /\ own(cs[1].n)
       [] route.kind = "X" ->
            /\ qs # <<>> /\ Len(cs) = 1
            /\ \A i \in DOMAIN qs : cs[1].n = route.kids[(qs[i].n % Len(route.kids)) + 1]
            /\ FromUp(ev, cs[1]) /\ own(cs[1].n)
       [] route.kind = "Q" ->
            /\ qs # <<>>
            /\ IF qs[1].n = 1
               THEN Len(cs) = 1 /\ cs[1].n = route.kids[1] /\ FromUp(ev, cs[1]) /\ own(cs[1].n)
               ELSE cs = <<>> /\ ev.r = "bad" /\ UNCHANGED route
       [] route.kind = "L" ->
            /\ qs = <<>> /\ Len(cs) <= Len(route.kids)
            /\ \A i \in DOMAIN cs : cs[i].n = route.kids[i] /\ (i < Len(cs) => cs[i].r = "bad")
            /\ IF cs # <<>> /\ cs[Len(cs)].r = "ok"
               THEN FromUp(ev, cs[Len(cs)]) /\ own(cs[Len(cs)].n)
               ELSE Len(cs) = Len(route.kids) /\ ev.r = "bad" /\ UNCHANGED route
       [] route.kind = "T" -> cs = <<>> /\ qs = <<>> /\ ev.r = "bad" /\ UNCHANGED route
       [] OTHER -> FALSE

RouteDeallocate(ev) ==
  LET cs == Called(ev.ups) IN
  /\ ev.r = "ok" /\ ev.id \in DOMAIN route.owner
  /\ Len(cs) = 1
  /\ cs[1].k = "d" /\ cs[1].n = route.owner[ev.id] /\ cs[1].a = ev.a /\ cs[1].sz = ev.sz /\ cs[1].al = ev.al
  /\ route' = [route EXCEPT !.owner = [i \in DOMAIN @ \ {ev.id} |-> @[i]]]

(* Requests for nothing: at most handed on as such. *)
RouteTrivial(ev) ==
  /\ ev.r = "ok" \/ (route.kind = "T" /\ ev.e = "z")
  /\ \A i \in DOMAIN ev.ups : ev.ups[i].k = "q" \/ (ev.ups[i].a = -1 /\ ev.ups[i].r = "ok" /\ (ev.ups[i].k = "a" => ev.ups[i].sz = 0))
  /\ UNCHANGED route

RouteStep(ev) ==
  CASE ev.e = "R" -> RouteCreate(ev)
    [] ev.e = "a" -> RouteAllocate(ev)
    [] ev.e = "d" -> RouteDeallocate(ev)
    [] ev.e \in {"z", "n"} -> RouteTrivial(ev)
    [] ev.e \in {"m", "M"} -> ev.ups = <<>> /\ UNCHANGED route
    [] ev.e = "D" -> ev.ups = <<>> /\ UNCHANGED route
    [] ev.e = "end" -> UNCHANGED route
    [] OTHER -> FALSE

RouteInv == \A i \in DOMAIN route.owner : \E k \in DOMAIN route.kids : route.kids[k] = route.owner[i]
=============================================================================
