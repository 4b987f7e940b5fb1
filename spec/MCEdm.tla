-------------------------------- MODULE MCEdm --------------------------------
(* All histories of operations on a few structured containers.              *)
EXTENDS Edm
CONSTANTS Schema,      \* as in the driver
          Start,       \* which objects there are: <<kind, dev, capacities>>
          Ops, MaxCalls, MaxObjs, Name
VARIABLES hist, calls
mcvars == <<edmvars, hist, calls>>
Kinds == CASE Schema = "a" -> <<"s", "v", "v">> [] Schema = "b" -> <<"v", "v", "s", "v">> [] Schema = "c" -> <<"v">>
           [] Schema = "d" -> <<"j", "s", "v", "j">> [] Schema = "e" -> <<"s", "v", "j", "v">> [] OTHER -> <<"j">>
Flat == <<<<"h", 0, <<2>>>>, <<"f", 1, <<2>>>>, <<"r", 1, <<3>>>>>>
Flat2 == <<<<"r", 1, <<1>>>>, <<"r", 0, <<0>>>>, <<"h", 0, <<0>>>>>>
Flat3 == <<<<"r", 1, <<2>>>>, <<"r", 1, <<2>>>>, <<"f", 1, <<2>>>>>>
Jag == <<<<"h", 0, <<1, 2>>>>, <<"f", 1, <<2, 2>>>>, <<"r", 1, <<1, 3>>>>>>
Jag2 == <<<<"r", 1, <<2, 1>>>>, <<"r", 1, <<1, 2>>>>, <<"f", 0, <<0, 2>>>>>>
Jag3 == <<<<"r", 1, <<2>>>>, <<"h", 0, <<>>>>, <<"f", 1, <<1, 1>>>>>>
V == CASE Start = 1 -> Flat [] Start = 2 -> Flat2 [] Start = 3 -> Flat3 [] Start = 4 -> Jag [] Start = 5 -> Jag2 [] OTHER -> Jag3
St(x) == ToString(x)
Join(s) == FoldLeft(LAMBDA acc, x : acc \o (IF acc = "" THEN "" ELSE ";") \o x, "", s)
Words(ws) == FoldLeft(LAMBDA acc, x : acc \o " " \o St(x), "", ws)
J(ks) == \E i \in DOMAIN ks : ks[i] = "j"
Count(x) == IF J(Kinds) THEN Len(x[3]) ELSE x[3][1]
Row0(c, s) == [c |-> c, s |-> s, v |-> [j \in 1..c |-> 0]]
Made(x) == [live |-> 1, k |-> x[1], dev |-> x[2], blk |-> {},
            vars |-> [i \in DOMAIN Kinds |-> CASE Kinds[i] = "s" -> <<Row0(1, 1)>>
                                             [] Kinds[i] = "v" -> <<Row0(Count(x), IF x[1] = "r" /\ ~J(Kinds) THEN 0 ELSE Count(x))>>
                                             [] OTHER -> [r \in DOMAIN x[3] |-> Row0(x[3][r], IF x[1] = "r" THEN 0 ELSE x[3][r])]]]
(* Values to tell the elements by; scripts only. *)
Fill(x, i) == [q \in 1..(Count(x) * Len(Kinds)) |-> LET n == (q - 1) \div Len(Kinds)
                                                        w == (q - 1) - Len(Kinds) * n IN
                                                    "set " \o Words(<<i, n, w, 0, 1 + q + 20 * i>>)]
Rows(x, i) == [q \in 1..(Count(x) * Len(Kinds)) |-> LET n == (q - 1) \div Len(Kinds)
                                                        w == (q - 1) - Len(Kinds) * n IN
                                                    IF Kinds[w + 1] = "j" THEN "hrow " \o Words(<<i, n, w, x[3][n + 1]>>) ELSE "wait"]
Text(x, i) == IF x[1] = "h" THEN Join(<<"h", "hr " \o Words(<<i, Count(x)>>)>> \o Rows(x, i) \o Fill(x, i))
              ELSE "b" \o Words(<<IF x[1] = "r" THEN 1 ELSE 0, x[2]>>) \o Words(x[3]) \o ";setup " \o St(i)
MCInit == /\ sch = Kinds /\ es = [i \in DOMAIN Kinds |-> 4]
          /\ objs = [i \in DOMAIN V |-> Made(V[i])]
          /\ hist = <<"@" \o Schema>> \o [i \in DOMAIN V |-> Text(V[i], i)] /\ calls = 0
Live == {i \in DOMAIN objs : objs[i].live = 1}
Hosts == {i \in Live : objs[i].k = "h"}
Bufs == Live \ Hosts
Hint(f, t) == IF calls % 2 = 0 THEN 4 ELSE IF f = t THEN 2 + f ELSE IF f = 0 THEN 0 ELSE 1
Step(ev, words) == \E a \in {After(ev)} : objs' = a.objs /\ hist' = Append(hist, ev.op \o Words(words)) /\ UNCHANGED <<sch, es>>
Said(ev, text) == \E a \in {After(ev)} : objs' = a.objs /\ hist' = Append(hist, text) /\ UNCHANGED <<sch, es>>
Known(o) == \A i \in Vars : \A r \in DOMAIN o.vars[i] : o.vars[i][r].s # Unspec
DoCopy == \E f, t \in Live : f # t /\ Known(objs[f]) /\ Step([op |-> "copy", f |-> f, t |-> t], <<f, t, Hint(objs[f].dev, objs[t].dev)>>)
DoTv == \E f \in Live : \E t \in Hosts : f # t /\ Consistent(objs[f]) /\ Known(objs[f]) /\ Step([op |-> "tv", f |-> f, t |-> t], <<f, t, Hint(objs[f].dev, 0)>>)
DoMs == \E t \in Live : Consistent(objs[t]) /\ Step([op |-> "ms", t |-> t, x |-> <<calls + 1>>], <<t, calls + 1>>)
DoSetup == \E t \in Bufs : Step([op |-> "setup", t |-> t], <<t>>)
DoGs == \E t \in Live : Consistent(objs[t]) /\ Known(objs[t]) /\ Step([op |-> "gs", t |-> t], <<t>>)
DoSz == \E t \in Hosts : Step([op |-> "sz", t |-> t], <<t>>)
DoDi == \E t \in Live : Consistent(objs[t]) /\ Known(objs[t]) /\ Step([op |-> "di", t |-> t], <<t>>)
DoRz == \E t \in Bufs : \E i \in Vars : \E r \in DOMAIN objs[t].vars[i] : \E n \in {0, objs[t].vars[i][r].c} :
          /\ Resizable(objs[t], i) /\ n # objs[t].vars[i][r].s
          /\ Step([op |-> "rz", t |-> t, x |-> <<i - 1, r - 1, n>>], <<t, i - 1, r - 1, n>>)
DoDpb == \E t \in Bufs : /\ objs[t].k = "r" /\ ~HasJ /\ Size(objs[t]) # Unspec /\ Size(objs[t]) < Room(objs[t], Lead)
                         /\ Step([op |-> "dpb", t |-> t, r |-> <<0>>], <<t, 1>>)
DoHr == \E t \in Hosts : \E n \in 0..2 : Step([op |-> "hr", t |-> t, x |-> <<n>>], <<t, n>>)
DoHv == \E t \in Hosts : Step([op |-> "hv", t |-> t], <<t, 5>>)
DoHx == \E t \in Hosts : \E i \in Common : \E n \in {0, 2} : Step([op |-> "hx", t |-> t, x |-> <<i - 1, n>>], <<t, i - 1, n>>)
DoHrow == \E t \in Hosts : \E i \in Vars : \E n \in {0, 2} : \E r \in 1..Len(objs[t].vars[i]) :
            sch[i] = "j" /\ Consistent(objs[t]) /\ Step([op |-> "hrow", t |-> t, x |-> <<r - 1, i - 1, n>>], <<t, r - 1, i - 1, n>>)
Position(o) == IF Consistent(o) /\ Known(o) /\ Size(o) > 0 THEN {0, Size(o) - 1} ELSE {}
DoSet == \E t \in Live : \E p \in Position(objs[t]) : \E w \in Vars :
           /\ (sch[w] = "j" => objs[t].vars[w][p + 1].s > 0)
           /\ Step([op |-> "set", t |-> t, x |-> <<p, w - 1, 0, 7>>], <<t, p, w - 1, 0, 100 + calls>>)
DoGet == \E t \in Live : \E p \in Position(objs[t]) \cup {Room(objs[t], Lead)} : Known(objs[t]) /\ Step([op |-> "get", t |-> t, x |-> <<p>>], <<t, p>>)
DoHc == \E t \in Hosts : Len(objs) < MaxObjs /\ Step([op |-> "hc", f |-> t], <<t>>)
DoFree == \E t \in Live : Step([op |-> "free", t |-> t], <<t>>)
DoMv == \E t \in Bufs : Len(objs) < MaxObjs /\ Step([op |-> "mv", f |-> t], <<t>>)
DoMa == \E t, f \in Bufs : t # f /\ Step([op |-> "ma", f |-> f, t |-> t], <<t, f>>)
MCNext == /\ calls < MaxCalls /\ calls' = calls + 1
          /\ \/ "copy" \in Ops /\ DoCopy
             \/ "tv" \in Ops /\ DoTv
             \/ "ms" \in Ops /\ DoMs
             \/ "setup" \in Ops /\ DoSetup
             \/ "gs" \in Ops /\ DoGs
             \/ "sz" \in Ops /\ DoSz
             \/ "di" \in Ops /\ DoDi
             \/ "rz" \in Ops /\ DoRz
             \/ "dpb" \in Ops /\ DoDpb
             \/ "hr" \in Ops /\ DoHr
             \/ "hv" \in Ops /\ DoHv
             \/ "hx" \in Ops /\ DoHx
             \/ "hrow" \in Ops /\ DoHrow
             \/ "set" \in Ops /\ DoSet
             \/ "get" \in Ops /\ DoGet
             \/ "hc" \in Ops /\ DoHc
             \/ "free" \in Ops /\ DoFree
             \/ "mv" \in Ops /\ DoMv
             \/ "ma" \in Ops /\ DoMa
MCSpec == MCInit /\ [][MCNext]_mcvars
Abs == [i \in DOMAIN objs |-> <<objs[i].live, [w \in DOMAIN objs[i].vars |-> [r \in DOMAIN objs[i].vars[w] |-> <<objs[i].vars[w][r].c, objs[i].vars[w][r].s>>]]>>]
MCView == <<Abs, calls, hist[Len(hist)]>>
Emit == PrintT("@@ " \o Name \o ";" \o Join(hist'))
(* Sizes stay within the capacities; a resizable container without jagged
   vectors has one size; only hosts change their shape. *)
Bounded == \A o \in Live : \A i \in Vars : \A r \in DOMAIN objs[o].vars[i] : objs[o].vars[i][r].s \in 0..objs[o].vars[i][r].c \cup {Unspec}
Together == \A o \in Bufs : ~HasJ => \A i, j \in Common : objs[o].vars[i][1].s = objs[o].vars[j][1].s
Shape(o) == [w \in DOMAIN o.vars |-> [r \in DOMAIN o.vars[w] |-> o.vars[w][r].c]]
ShapesKept == [][\A o \in DOMAIN objs : objs'[o].live = 1 /\ objs[o].live = 1 /\ objs[o].k # "h" /\ ~("ma" \in Ops) => Shape(objs[o]) = Shape(objs'[o])]_mcvars
(* What a copy was accepted for is in the target. *)
=============================================================================
