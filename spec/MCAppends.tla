----------------------------- MODULE MCAppends -----------------------------
(* The algorithm: claim positions with one atomic addition to the shared   *)
(* size, then construct the elements one by one.  In every interleaving,   *)
(* what it returns and leaves behind is as Appends demands.                *)
EXTENDS Appends
CONSTANTS Threads, Programs, Initial, Vecs, Name
VARIABLES prog,            \* thread -> sequence of <<op, v, x>>
          size, mem,       \* v -> shared size, v -> contents
          ph, idx, done, made   \* thread: phase, claimed index, elements constructed
mcvars == <<apVars, prog, size, mem, ph, idx, done, made>>
Start == [cap |-> 8, s |-> Initial]
StX(x) == ToString(x)
Line(t, o) == FoldLeft(LAMBDA a, b : a \o " " \o StX(b), ";t " \o StX(t - 1) \o " " \o o[1] \o " " \o StX(o[2]), o[3])
Text(p) == FoldLeft(LAMBDA a, t : FoldLeft(LAMBDA b, o : b \o Line(t, o), a, p[t]), Name, [t \in 1..Threads |-> t])
(* Threads are interchangeable in the order of their programs. *)
Ordered(p) == \A t \in 1..(Threads - 1) : Len(p[t]) >= Len(p[t + 1])
MCInit == /\ prog \in [1..Threads -> Programs] /\ Ordered(prog)
          /\ vecs = [v \in 1..Vecs |-> Start] /\ claims = {} /\ pend = <<>> /\ begun = [v \in 1..Vecs |-> 0] /\ dflt = 7 /\ counted = 1
          /\ size = [v \in 1..Vecs |-> Len(Initial)] /\ mem = [v \in 1..Vecs |-> Initial]
          /\ ph = [t \in 1..Threads |-> "idle"] /\ idx = [t \in 1..Threads |-> 0] /\ done = [t \in 1..Threads |-> 0] /\ made = <<>>
          /\ PrintT("@@ " \o Text(prog))
Op(t) == Head(prog[t])
Val(t, o) == IF o[1] \in {"push"} THEN <<10 * t>> ELSE IF o[1] = "bulkv" THEN <<o[3][1], 10 * t>> ELSE o[3]
Begin(t) == /\ ph[t] = "idle" /\ prog[t] # <<>>
            /\ Call([t |-> t, op |-> Op(t)[1], v |-> Op(t)[2], x |-> Val(t, Op(t))])
            /\ ph' = [ph EXCEPT ![t] = "claim"] /\ done' = [done EXCEPT ![t] = 0]
            /\ UNCHANGED <<prog, size, mem, idx, made>>
Claim(t) == /\ ph[t] = "claim"
            /\ idx' = [idx EXCEPT ![t] = size[Op(t)[2]]]
            /\ size' = [size EXCEPT ![Op(t)[2]] = @ + Len(pend[t].vals)]
            /\ ph' = [ph EXCEPT ![t] = "fill"]
            /\ UNCHANGED <<apVars, prog, mem, done, made>>
Pad(s, n) == IF Len(s) >= n THEN s ELSE s \o Fill(n - Len(s), -1)
Construct(t) == /\ ph[t] = "fill" /\ done[t] < Len(pend[t].vals)
                /\ mem' = [mem EXCEPT ![Op(t)[2]] = [Pad(@, idx[t] + done[t] + 1) EXCEPT ![idx[t] + done[t] + 1] = pend[t].vals[done[t] + 1]]]
                /\ made' = Append(made, <<"c", Op(t)[2], idx[t] + done[t], 0>>)
                /\ done' = [done EXCEPT ![t] = @ + 1]
                /\ UNCHANGED <<apVars, prog, size, ph, idx>>
End(t) == /\ ph[t] = "fill" /\ done[t] = Len(pend[t].vals)
          /\ Return([t |-> t, r |-> idx[t], race |-> 0])
          /\ prog' = [prog EXCEPT ![t] = Tail(@)] /\ ph' = [ph EXCEPT ![t] = "idle"]
          /\ UNCHANGED <<size, mem, idx, done, made>>
MCNext == \E t \in 1..Threads : Begin(t) \/ Claim(t) \/ Construct(t) \/ End(t)
MCSpec == MCInit /\ [][MCNext]_mcvars
(* Every return is allowed, and so is the end. *)
Returns == \A t \in 1..Threads : ph[t] = "fill" /\ done[t] = Len(pend[t].vals) =>
              IF pend[t].op = "size" THEN SizeSeen(pend[t], idx[t]) ELSE OwnPositions(pend[t], idx[t])
AllDone == \A t \in 1..Threads : ph[t] = "idle" /\ prog[t] = <<>>
Ends == AllDone => Fine([obs |-> [v \in 1..Vecs |-> [cap |-> 8, sz |-> size[v], s |-> mem[v]]], lt |-> made, g |-> 1, bal |-> 0])
MCView == <<vecs, claims, pend, begun, prog, size, mem, ph, idx, done, {made[j] : j \in DOMAIN made}, Len(made)>>

Push == <<"push", 1, <<>>>>
Two == <<"bulkv", 1, <<2, 0>>>>
Def == <<"bulk", 1, <<2>>>>
Size == <<"size", 1, <<>>>>
Other == <<"push", 2, <<>>>>
PairPrograms == {<<a, b>> : a, b \in {Push, Two, Def}} \cup {<<a>> : a \in {Push, Two, Def}} \cup {<<Size, Push>>, <<Two, Size>>}
TriplePrograms == {<<Push>>, <<Two>>, <<Def>>, <<Push, Push>>}
TwoVectors == {<<Push, Other>>, <<Other, Push>>, <<Two, Other>>, <<Other, Other>>}
SinglePrograms == {<<Push>>, <<Push, Push>>, <<Other, Push>>, <<Push, Other>>}
NoneYet == <<>>
SomeYet == <<1, 2>>
=============================================================================
