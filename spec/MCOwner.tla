------------------------------- MODULE MCOwner -------------------------------
(* The most general behaviour that Owner allows: in every call any event    *)
(* may come next.  Every way through a call, once it returns, leaves        *)
(* everything owned exactly once.                                           *)
EXTENDS Owner, SequencesExt
CONSTANTS Ops, Handles, Counts, MaxCalls, Types
VARIABLES hist, calls, line
mcvars == <<ownerVars, hist, calls, line>>
(* a type: [name, es, ea] *)
AllTypes == {[name |-> "s", es |-> 4, ea |-> 4], [name |-> "v", es |-> 64, ea |-> 64]}
OneType == {[name |-> "m", es |-> 24, ea |-> 8]}
S(x) == ToString(x)
Base == 64 * 64
MCInit == OwnerInit /\ hist = <<>> /\ calls = 0 /\ line = ""
Fresh == CHOOSE p \in {i * Base : i \in 1..10} : \A b \in DOMAIN blocks : p # b
Vals(n) == [i \in 1..n |-> 7]
Callable ==
  {[e |-> "call", op |-> op, h |-> h, h2 |-> 0, n |-> IF op \in {"new", "obj"} THEN 1 ELSE n, es |-> t.es, ea |-> t.ea, vals |-> Vals(IF op \in {"new", "obj"} THEN 1 ELSE n), vast |-> 0, t |-> t.name] :
      op \in Ops \cap {"bytes", "space", "new", "obj", "arr", "alloc"}, h \in Handles \ DOMAIN hs, n \in Counts, t \in Types}
  \cup {[e |-> "call", op |-> op, h |-> h, h2 |-> h2, n |-> 0, es |-> 1, ea |-> 1, vals |-> <<>>, vast |-> 0, t |-> "-"] :
      op \in Ops \cap {"free", "reset", "die", "move", "swap", "release"}, h \in DOMAIN hs, h2 \in DOMAIN hs}
Text(ev) ==
  CASE ev.op \in {"bytes"} -> "bytes " \o S(ev.h) \o " " \o S(ev.n * ev.es) \o " " \o S(ev.ea)
    [] ev.op \in {"space", "new", "obj", "arr", "alloc"} -> ev.op \o " " \o S(ev.h) \o " " \o ev.t \o " " \o S(ev.n)
    [] ev.op \in {"move", "swap"} -> ev.op \o " " \o S(ev.h) \o " " \o S(ev.h2)
    [] OTHER -> ev.op \o " " \o S(ev.h)
Begin == /\ calls < MaxCalls
         /\ \E ev \in Callable :
              /\ ev.op \in {"move", "swap"} => ev.h # ev.h2
              /\ ev.op \notin {"move", "swap"} /\ ev.op \in {"free", "reset", "die", "release"} => ev.h2 = ev.h
              /\ Start(ev) /\ line' = Text(ev) /\ calls' = calls + 1 /\ UNCHANGED hist
Inside ==
  /\ cur # Idle
  /\ \/ \E r \in {"ok", "bad"} : UpAlloc([sz |-> cur.n * cur.es, al |-> cur.ea, r |-> r, a |-> Fresh])
     \/ \E b \in DOMAIN blocks : UpFree([a |-> b, sz |-> blocks[b].sz, al |-> blocks[b].al])
     \/ \E b \in DOMAIN blocks : \E i \in 0..3 : Construct([a |-> b + i * cur.es, v |-> 7])
     \/ \E b \in DOMAIN blocks : \E i \in 0..3 : Throw([a |-> b + i * cur.es])
     \/ \E o \in DOMAIN objs : Destroy([a |-> o])
  /\ UNCHANGED <<hist, calls, line>>
Fault == IF cur.failed THEN <<"E 1">> ELSE IF cur.thrown THEN <<"T " \o S(Cardinality(cur.made))>> ELSE <<>>
End == /\ cur # Idle
       /\ \E r \in {"ok", "bad", "throw"} : \E a \in {-1} \cup DOMAIN blocks : Return([r |-> r, a |-> a])
       /\ hist' = hist \o Fault \o <<line>>
       /\ line' = "" /\ UNCHANGED calls
MCNext == Begin \/ Inside \/ End
MCSpec == MCInit /\ [][MCNext]_mcvars
MCView == <<ownerVars, line, calls>>
Join(s) == FoldLeft(LAMBDA acc, x : acc \o ";" \o x, "", s)
Emit == Len(hist') > Len(hist) => PrintT("@@ " \o "R" \o Join(hist'))
=============================================================================
