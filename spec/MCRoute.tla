------------------------------ MODULE MCRoute ------------------------------
EXTENDS Route, MCBase
CONSTANTS Kind, Kids
mcvars == <<route, envVars>>
MCInit == EnvInit(Kind, FALSE, Kind \in {"Q", "T"}) /\ route = [kind |-> Kind, kids |-> Kids, owner |-> <<>>]

Ask(n, rq) == [k |-> "q", n |-> n, sz |-> rq[1], al |-> rq[2], r |-> "ok", a |-> -1]
(* What may happen upstream for a request, with the script operation that  *)
(* makes the client's functions answer accordingly.                        *)
Options(rq) ==
  CASE Kind = "X" -> {<<<<"W " \o ToString(w)>>, <<Ask(w, rq), Alc(Kids[(w % Len(Kids)) + 1], rq[1], rq[2], r)>>>> : w \in 0..(Len(Kids) - 1), r \in Results}
    [] Kind = "Q" -> {<<<<"Q 1">>, <<Ask(1, rq), Alc(Kids[1], rq[1], rq[2], r)>>>> : r \in Results} \cup {<<<<"Q 0">>, <<Ask(0, rq)>>>>}
    [] Kind = "L" -> {<<<<>>, [i \in 1..k |-> Alc(Kids[i], rq[1], rq[2], IF i < k THEN "bad" ELSE "ok")]>> : k \in 1..Len(Kids)}
                     \cup {<<<<>>, [i \in 1..Len(Kids) |-> Alc(Kids[i], rq[1], rq[2], "bad")]>>}
    [] Kind \in {"I", "S"} -> {<<<<>>, <<Alc(Kids[1], rq[1], rq[2], r)>>>> : r \in Results}
    [] OTHER -> {<<<<>>, <<>>>>}

DoAllocate ==
  /\ cfg.alive /\ Cardinality(DOMAIN live) < MaxLive
  /\ \E rq \in Requests : \E o \in Options(rq) :
       LET id == NewId  us == o[2]
           cs == SelectSeq(us, LAMBDA u : u.k = "a")
           good == cs # <<>> /\ cs[Len(cs)].r = "ok"
           e == AllocEv(id, rq, us, IF good THEN "ok" ELSE "bad", IF good THEN cs[Len(cs)].a ELSE -1) IN
       RouteStep(e) /\ Env(e, o[1] \o AllocOps(id, rq, us))
(* The client's functions may have changed their minds in the meantime. *)
DoDeallocate ==
  cfg.alive /\ \E id \in DOMAIN live : \E w \in (IF Kind = "X" THEN {"W 0", "W 1"} ELSE IF Kind = "Q" THEN {"Q 0", "Q 1"} ELSE {""}) :
    LET e == FreeEv(id, <<Rtn(live[id].a)>>) IN
    RouteStep(e) /\ Env(e, (IF w = "" THEN <<>> ELSE <<w>>) \o FreeOps(id))
DoDestroy == cfg.alive /\ LET e == [e |-> "D", ups |-> <<>>, ok |-> 1] IN RouteStep(e) /\ Env(e, <<"D">>)
MCNext == DoAllocate \/ DoDeallocate \/ DoDestroy
MCSpec == MCInit /\ [][MCNext]_mcvars
MCView == <<route, live, held, cfg.alive, Len(hist)>>
Inv == HeapInv /\ RouteInv
K1 == <<0>>
K2 == <<0, 1>>
K3 == <<0, 1, 2>>
K3r == <<2, 0, 1>>
RequestsA == {<<16, 16>>, <<40, 64>>}
RequestsT == {<<1, 1>>, <<24, 8>>, <<1000, 256>>}
=============================================================================
