--------------------------- MODULE MCStaticVector ---------------------------
(* All histories of operations on one or two static vectors; the environment *)
(* carries each one out by replacing all elements from the first concerned   *)
(* position on.                                                              *)
EXTENDS StaticVector
CONSTANTS Cap, N, Ops, MaxCalls, Name
VARIABLES hist, calls
mcvars == <<dvVars, hist, calls>>
St(x) == ToString(x)
MCInit == /\ vecs = [v \in 1..N |-> [cap |-> Cap, fixed |-> 0, s |-> <<>>, live |-> {}]]
          /\ dflt = 7 /\ counted = 1 /\ hist = <<>> /\ calls = 0
V == calls + 10                              \* a fresh value
Args(op, s) ==
  LET n == Len(s) P == 0..n IN
  CASE op = "push" -> {<<V>>}
    [] op \in {"pusha", "del"} -> {<<i>> : i \in Slots(s)}
    [] op \in {"resize", "newd"} -> {<<k>> : k \in 0..Cap}
    [] op \in {"resizev", "assign", "newn"} -> {<<k, V>> : k \in 0..Cap}
    [] op \in {"assignr", "newr"} -> {[i \in 1..k |-> V + i] : k \in 0..Cap}
    [] op = "set" -> {<<i, V>> : i \in Slots(s)}
    [] op = "resizea" -> {<<k, i>> : k \in 0..Cap, i \in Slots(s)}
    [] op = "ins" -> {<<p, V>> : p \in P}
    [] op = "insa" -> {<<p, i>> : p \in P, i \in Slots(s)}
    [] op = "insn" -> {<<p, k, V>> : p \in P, k \in 0..(Cap - n)}
    [] op = "insna" -> {<<p, k, i>> : p \in P, k \in 0..(Cap - n), i \in Slots(s)}
    [] op = "insr" -> {<<p>> \o [i \in 1..k |-> V + i] : p \in P, k \in 0..(Cap - n)}
    [] op = "delr" -> {<<p, q>> : p \in P, q \in P}
    [] op \in {"asg", "copyc"} -> {<<w>> : w \in DOMAIN vecs}
    [] OTHER -> {<<>>}
Fine(op, v, x) == IF op \in {"asg", "copyc", "new0", "newd", "newn", "newr"} THEN op # "copyc" \/ x[1] # v
                  ELSE Allowed(op, vecs[v].s, x, Cap)
Happen(v, eff, s) ==
  LET f == First(eff, s) IN
  [i \in 1..(Len(s) - f) |-> <<"d", v, f + i - 1, 0>>] \o [i \in 1..(Len(eff.s) - f) |-> <<"c", v, f + i - 1, 0>>]
Event(v, op, x, eff) ==
  [e |-> "op", v |-> v, op |-> op, x |-> x, r |-> eff.r, g |-> 1, bal |-> 0, lt |-> IF op = "set" THEN <<>> ELSE Happen(v, eff, vecs[v].s),
   obs |-> [w \in DOMAIN vecs |-> [cap |-> Cap, sz |-> Len(IF w = v THEN eff.s ELSE vecs[w].s), un |-> 0, rd |-> <<IF w = v THEN eff.s ELSE vecs[w].s>>]]]
Do(v, op, x) ==
  /\ Fine(op, v, x) = TRUE
  /\ \E eff \in {SVEffect(op, v, x)} : SVOperate(Event(v, op, x, eff))
  /\ hist' = Append(hist, FoldLeft(LAMBDA a, b : a \o " " \o St(b), op \o " " \o St(v), x))
MCNext == /\ calls < MaxCalls /\ calls' = calls + 1
          /\ \E v \in DOMAIN vecs : \E op \in Ops : \E x \in Args(op, vecs[v].s) : Do(v, op, x)
MCSpec == MCInit /\ [][MCNext]_mcvars
MCView == <<[v \in DOMAIN vecs |-> Len(vecs[v].s)], calls, IF hist = <<>> THEN "" ELSE hist[Len(hist)]>>
Join(s) == FoldLeft(LAMBDA acc, x : acc \o ";" \o x, "", s)
Emit == PrintT("@@ " \o Name \o Join(hist'))
(* What the property says, on the specification: copies are independent. *)
OthersKept == [][\A v, w \in DOMAIN vecs : vecs'[v].s # vecs[v].s /\ w # v => vecs'[w].s = vecs[w].s]_mcvars
=============================================================================
