--------------------------- MODULE MCDeviceVector ---------------------------
(* All histories of operations on two vectors; the environment carries each *)
(* one out object by object, in any order that Operate accepts.             *)
EXTENDS DeviceVector
CONSTANTS Caps,        \* <<capacity, fixed>> of the vectors
          Ops, MaxCalls, Name
VARIABLES hist, calls
One == <<<<3, 0>>>>
Two == <<<<2, 0>>, <<2, 0>>>>
Mixed == <<<<0, 0>>, <<2, 1>>, <<2, 0>>>>
mcvars == <<dvVars, hist, calls>>
St(x) == ToString(x)
Vs == [v \in 1..Len(Caps) |-> [cap |-> Caps[v][1], fixed |-> Caps[v][2], s |-> IF Caps[v][2] = 1 THEN [i \in 1..Caps[v][1] |-> 100 + i] ELSE <<>>]]
MCInit == /\ vecs = [v \in 1..Len(Vs) |-> [cap |-> Vs[v].cap, fixed |-> Vs[v].fixed, s |-> Vs[v].s, live |-> Slots(Vs[v].s)]]
          /\ dflt = 7 /\ counted = 1 /\ hist = <<>> /\ calls = 0
Args(op, s, cap) ==
  CASE op = "push" -> {<<calls + 10>>}
    [] op \in {"pusha"} -> {<<0>>, <<Len(s) - 1>>}
    [] op \in {"bulk", "resize"} -> {<<n>> : n \in 0..cap}
    [] op \in {"bulkv", "resizev", "assign"} -> {<<n, calls + 10>> : n \in 0..cap}
    [] op \in {"bulka", "resizea"} -> {<<n, i>> : n \in {1, cap}, i \in {0, Len(s) - 1}}
    [] op = "assignr" -> {[i \in 1..n |-> 10 * calls + i] : n \in 0..cap}
    [] op = "set" -> {<<i, calls + 10>> : i \in Slots(s)}
    [] OTHER -> {<<>>}
Bad(op, s, x) == \/ op = "pop" /\ s = <<>>
                 \/ op = "pusha" /\ (x[1] < 0 \/ s = <<>>)
                 \/ op \in {"bulka", "resizea"} /\ (s = <<>> \/ x[2] < 0)
Sizes(fixed, op) == fixed = 0 \/ op = "set"
(* The order does not matter to Operate, so the canonical one will do. *)
Happen(v, eff) == SetToSeq({<<"d", v, i, 0>> : i \in eff.del}) \o SetToSeq({<<"c", v, i, 0>> : i \in eff.new})
Event(v, op, x, eff) ==
  [e |-> "op", v |-> v, op |-> op, x |-> x, r |-> eff.r, g |-> 1, bal |-> 0, lt |-> Happen(v, eff),
   obs |-> [w \in DOMAIN vecs |-> [cap |-> vecs[w].cap, sz |-> Len(IF w = v THEN eff.s ELSE vecs[w].s), un |-> 0, rd |-> <<IF w = v THEN eff.s ELSE vecs[w].s>>]]]
Do(v, op, x) ==
  /\ ~Bad(op, vecs[v].s, x) /\ Sizes(vecs[v].fixed, op) /\ Len(Effect(op, vecs[v].s, x, 7).s) <= vecs[v].cap
  /\ \E eff \in {Effect(op, vecs[v].s, x, 7)} : Operate(Event(v, op, x, eff))
  /\ hist' = Append(hist, FoldLeft(LAMBDA a, b : a \o " " \o St(b), op \o " " \o St(v), x))
MCNext == /\ calls < MaxCalls /\ calls' = calls + 1
          /\ \E v \in DOMAIN vecs : \E op \in Ops : \E x \in Args(op, vecs[v].s, vecs[v].cap) : Do(v, op, x)
MCSpec == MCInit /\ [][MCNext]_mcvars
Abs == [v \in DOMAIN vecs |-> vecs[v].s]
MCView == <<[v \in DOMAIN vecs |-> Len(vecs[v].s)], calls, IF hist = <<>> THEN "" ELSE hist[Len(hist)]>>
Join(s) == FoldLeft(LAMBDA acc, x : acc \o ";" \o x, "", s)
Emit == PrintT("@@ " \o Name \o Join(hist'))
CapacityKept == [][\A v \in DOMAIN vecs : vecs'[v].cap = vecs[v].cap]_mcvars
=============================================================================
