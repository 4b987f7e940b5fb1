------------------------------- MODULE MCCopy -------------------------------
(* All histories of operations on a few objects that exist from the start; *)
(* and of new ones, made by copying.                                        *)
EXTENDS Copy
CONSTANTS Start,       \* the objects: <<kind, jagged, dev, capacities>>
          Ops, Forms, MaxCalls, MaxObjs, Name
VARIABLES hist, calls
mcvars == <<objs, hist, calls>>
Flat == <<<<"h", 0, 0, <<2>>>>, <<"f", 0, 1, <<1>>>>, <<"r", 0, 1, <<2>>>>>>
Flat2 == <<<<"r", 0, 0, <<2>>>>, <<"r", 0, 1, <<3>>>>, <<"h", 0, 0, <<0>>>>>>
Jag == <<<<"h", 1, 0, <<1, 0, 2>>>>, <<"f", 1, 1, <<2, 0, 2>>>>, <<"r", 1, 1, <<2, 1, 2>>>>>>
Jag2 == <<<<"r", 1, 1, <<1, 2>>>>, <<"r", 1, 0, <<1, 2>>>>, <<"f", 1, 0, <<0, 2>>>>>>
Jag3 == <<<<"h", 1, 0, <<>>>>, <<"r", 1, 1, <<0, 1>>>>, <<"h", 1, 0, <<1, 1>>>>>>
Mixed == <<<<"r", 1, 1, <<2, 1>>>>, <<"r", 0, 0, <<2>>>>, <<"h", 0, 0, <<1>>>>>>
Twice(x) == x
V(x) == IF x = 1 THEN Flat ELSE IF x = 2 THEN Flat2 ELSE IF x = 3 THEN Jag ELSE IF x = 4 THEN Jag2 ELSE IF x = 5 THEN Jag3 ELSE Mixed
St(x) == ToString(x)
Join(s) == FoldLeft(LAMBDA acc, x : acc \o ";" \o x, "", s)
Words(ws) == FoldLeft(LAMBDA acc, x : acc \o " " \o St(x), "", ws)
Made(x, i) == [live |-> 1, jag |-> x[2], k |-> x[1], dev |-> x[3], blk |-> {},
               rows |-> [r \in DOMAIN x[4] |-> [c |-> x[4][r], s |-> IF x[1] = "r" THEN 0 ELSE x[4][r], v |-> [j \in 1..x[4][r] |-> 10 * i + 3 * r + j]]]]
Text(x, i) == IF x[1] = "h" THEN (IF x[2] = 1 THEN "hj" \o Words(x[4]) ELSE "h1" \o Words(x[4]))
              ELSE (IF x[2] = 1 THEN "bj" \o Words(<<IF x[1] = "r" THEN 1 ELSE 0, x[3]>>) \o Words(x[4])
                    ELSE "b1" \o Words(x[4]) \o Words(<<IF x[1] = "r" THEN 1 ELSE 0, x[3]>>)) \o ";setup " \o St(i)
MCInit == /\ objs = [i \in DOMAIN V(Start) |-> Made(V(Start)[i], i)]
          /\ hist = <<Join([i \in DOMAIN V(Start) |-> Text(V(Start)[i], i)])>> /\ calls = 0
Live == {i \in DOMAIN objs : objs[i].live = 1}
Operands == {<<i, "w", 0, 0>> : i \in Live}
            \cup (IF "r" \in Forms THEN UNION {{<<i, "r", r - 1, 0>> : r \in DOMAIN objs[i].rows} : i \in {j \in Live : objs[j].jag = 1}} ELSE {})
            \cup (IF "p" \in Forms THEN UNION {{<<i, "p", k, 0>> : k \in 0..Len(objs[i].rows)} : i \in {j \in Live : objs[j].jag = 1}} ELSE {})
            \cup (IF "s" \in Forms THEN {<<i, "s", 1, 1>> : i \in {j \in Live : objs[j].jag = 0 /\ objs[j].rows[1].c > 1}} ELSE {})
Spell(p) == IF p[2] = "w" THEN St(p[1]) ELSE St(p[1]) \o ":" \o p[2] \o ":" \o St(p[3]) \o ":" \o St(p[4])
Hint(f, t) == IF calls % 2 = 0 THEN 4 ELSE IF f = t THEN 2 + f ELSE IF f = 0 THEN 0 ELSE 1
Step(ev, text) == \E a \in {After(ev)} : objs' = a.objs /\ hist' = Append(hist, text)
DoCopy == \E f, t \in Operands : /\ f[1] # t[1] /\ Jagged(f) = Jagged(t)
                                 /\ Step([op |-> "copy", f |-> f, t |-> t], "copy " \o Spell(f) \o " " \o Spell(t) \o " " \o St(Hint(Dev(f), Dev(t))))
DoTv == \E f \in Operands : \E t \in Live : /\ f[1] # t /\ objs[t].k = "h" /\ Jagged(f) = (objs[t].jag = 1)
                                            /\ Step([op |-> "tv", f |-> f, t |-> <<t, "w", 0, 0>>], "tv " \o Spell(f) \o " " \o St(t) \o " " \o St(Hint(Dev(f), 0)))
DoTo == \E f \in Operands : \E d \in 0..1 : /\ Len(objs) < MaxObjs
                                            /\ Step([op |-> "to", f |-> f, dev |-> d], "to " \o Spell(f) \o " " \o St(d) \o " " \o St(Hint(Dev(f), d)))
(* A buffer made after a view whose sizes the host can see; and set up. *)
Empty(o) == [o EXCEPT !.rows = [i \in DOMAIN o.rows |-> [o.rows[i] EXCEPT !.s = IF o.k = "r" THEN 0 ELSE @]]]
DoBufv == \E f \in Operands : \E z, d \in 0..1 : /\ Len(objs) < MaxObjs /\ Jagged(f) /\ ~(Resz(objs[f[1]]) /\ Dev(f) = 1)
            /\ \E a \in {After([op |-> "bufv", f |-> f, k |-> IF z = 1 THEN "r" ELSE "f", dev |-> d])} : objs' = [a.objs EXCEPT ![Len(objs) + 1] = Empty(@)]
            /\ hist' = Append(hist, "bv " \o Spell(f) \o Words(<<z, d>>) \o ";setup " \o St(Len(objs) + 1))
DoMs == \E t \in Operands : Step([op |-> "ms", t |-> t, x |-> <<calls>>], "ms " \o Spell(t) \o " " \o St(calls + 1))
Some(t) == {[i \in DOMAIN Slots(t) |-> 0], [i \in DOMAIN Slots(t) |-> Slots(t)[i].cap], [i \in DOMAIN Slots(t) |-> IF i = Len(Slots(t)) THEN Slots(t)[i].cap + 1 ELSE 0], <<1>>}
DoSs == \E t \in Operands : \E x \in Some(t) : /\ Jagged(t) /\ Step([op |-> "ss", t |-> t, x |-> x], "ss " \o Spell(t) \o Words(x))
DoSetup == \E t \in Live : objs[t].k # "h" /\ Step([op |-> "setup", t |-> <<t, "w", 0, 0>>], "setup " \o St(t))
DoGs == \E t \in Operands : Step([op |-> "gs", f |-> t], "gs " \o Spell(t))
DoRz == \E t \in Live : \E r \in DOMAIN objs[t].rows : \E n \in {0, objs[t].rows[r].c} :
          objs[t].k = "r" /\ n # objs[t].rows[r].s /\ Step([op |-> "rz", t |-> <<t, "w", 0, 0>>, x |-> <<r - 1, n>>], "rz " \o St(t) \o Words(<<r - 1, n>>))
DoFree == \E t \in Live : Step([op |-> "free", t |-> <<t, "w", 0, 0>>], "free " \o St(t))
DoMv == \E t \in Live : objs[t].k # "h" /\ Len(objs) < MaxObjs /\ Step([op |-> "mv", o |-> t], "mv " \o St(t))
DoMa == \E t, o \in Live : /\ t # o /\ objs[t].k # "h" /\ objs[o].k # "h" /\ objs[t].jag = objs[o].jag
                           /\ Step([op |-> "ma", o |-> o, t |-> <<t, "w", 0, 0>>], "ma " \o St(t) \o " " \o St(o))
MCNext == /\ calls < MaxCalls /\ calls' = calls + 1
          /\ \/ "copy" \in Ops /\ DoCopy
             \/ "tv" \in Ops /\ DoTv
             \/ "to" \in Ops /\ DoTo
             \/ "bufv" \in Ops /\ DoBufv
             \/ "ms" \in Ops /\ DoMs
             \/ "ss" \in Ops /\ DoSs
             \/ "setup" \in Ops /\ DoSetup
             \/ "gs" \in Ops /\ DoGs
             \/ "rz" \in Ops /\ DoRz
             \/ "free" \in Ops /\ DoFree
             \/ "mv" \in Ops /\ DoMv
             \/ "ma" \in Ops /\ DoMa
MCSpec == MCInit /\ [][MCNext]_mcvars
Abs == [i \in DOMAIN objs |-> <<objs[i].live, [r \in DOMAIN objs[i].rows |-> <<objs[i].rows[r].c, objs[i].rows[r].s>>]>>]
MCView == <<Abs, calls, hist[Len(hist)]>>
Emit == PrintT("@@ " \o Name \o Join(hist'))
(* Sizes stay within capacity, and refused operations change nothing. *)
Bounded == \A o \in DOMAIN objs : \A r \in DOMAIN objs[o].rows : objs[o].rows[r].s <= objs[o].rows[r].c
CapacitiesKept == [][\A o \in DOMAIN objs : objs'[o].live = 1 /\ objs[o].live = 1 /\ objs[o].k # "h" /\ objs'[o].k = objs[o].k /\ ~("ma" \in Ops) =>
                       [i \in DOMAIN objs[o].rows |-> objs[o].rows[i].c] = [i \in DOMAIN objs'[o].rows |-> objs'[o].rows[i].c]]_mcvars
=============================================================================
