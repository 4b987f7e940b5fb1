-------------------------------- MODULE MCBig --------------------------------
(* All histories of operations on a few vectors that 32 bits can not count   *)
(* the bytes of.                                                            *)
EXTENDS Big
CONSTANTS Start,       \* which objects there are
          Ops, MaxCalls, Name
VARIABLES hist, calls
mcvars == <<bigvars, hist, calls>>
(* Numbers near powers of two, and what is looked at around them. *)
M31 == <<128, 0>>
Max32 == <<255, Base - 1>>
Starts == <<
  [t |-> "c", p |-> <<Nr(0), Nr(1), Nr(65536), <<127, Base - 1>>, M31, <<128, 1>>, <<255, Base - 3>>, <<255, Base - 2>>>>,
   o |-> <<<<"v", 1, <<Max32>>>>, <<"v", 0, <<<<128, 2>>>>>>, <<"v", 1, <<<<128, 3>>>>>>>>],
  [t |-> "d", p |-> <<Nr(0), <<15, Base - 1>>, <<16, 0>>, <<31, Base - 1>>, <<32, 0>>, <<32, 1>>, <<254, 0>>>>,
   o |-> <<<<"v", 1, <<<<32, 2>>>>>>, <<"v", 0, <<<<32, 2>>>>>>, <<"v", 1, <<<<254, 1>>>>>>>>],
  [t |-> "i", p |-> <<Nr(0), Nr(2), <<31, Base - 1>>, <<32, 0>>, <<63, Base - 1>>, <<64, 0>>, <<64, 1>>>>,
   o |-> <<<<"j", 1, <<<<64, 1>>, Nr(0), Nr(3), <<32, 2>>>>>>, <<"j", 0, <<<<64, 1>>, Nr(0), Nr(3), <<32, 2>>>>>>,
           <<"j", 1, <<<<64, 2>>, Nr(0), Nr(3), <<32, 2>>>>>>>>],
  (* 7160 n + 4 + n bytes: 2^32 of them with n = 599772 *)
  [t |-> "B", p |-> <<Nr(0), Nr(1), Nr(299932), Nr(599770), Nr(599771), Nr(599855), Nr(599999)>>,
   o |-> <<<<"e", 1, <<Nr(599772)>>>>, <<"e", 0, <<Nr(599772)>>>>, <<"e", 1, <<Nr(600000)>>>>, <<"e", 0, <<Nr(600000)>>>>>>],
  [t |-> "i", p |-> <<Nr(0), Nr(2), <<31, Base - 1>>, <<32, 0>>, <<64, 0>>, <<64, 1>>>>,
   o |-> <<<<"f", 1, <<<<64, 2>>, Nr(3), <<1, 0>>>>>>, <<"f", 0, <<<<64, 2>>, Nr(3), <<1, 0>>>>>>, <<"f", 1, <<<<64, 2>>, Nr(3), <<1, 0>>>>>>>>],
  (* A little more than that, and twice as much *)
  [t |-> "B", p |-> <<Nr(0), Nr(1), Nr(599771), Nr(599772), Nr(1199543)>>,
   o |-> <<<<"e", 1, <<Nr(599773)>>>>, <<"e", 1, <<Nr(599773)>>>>, <<"e", 0, <<Nr(1199544)>>>>, <<"e", 0, <<Nr(1199544)>>>>>>]
>>
S == Starts[Start]
St(x) == ToString(x)
Bn(x) == St(x[1]) \o ":" \o St(x[2])
Join(s) == FoldLeft(LAMBDA acc, x : acc \o (IF acc = "" THEN "" ELSE ";") \o x, "", s)
Big1(ws) == FoldLeft(LAMBDA acc, x : acc \o " " \o Bn(x), "", ws)
Words(ws) == FoldLeft(LAMBDA acc, x : acc \o " " \o St(x), "", ws)
Filled(o, i) == [o EXCEPT !.rows = [k \in DOMAIN @ |-> [@[k] EXCEPT !.v = [j \in DOMAIN @ |-> 100 * i + 10 * k + j]]]]
MCInit == /\ P = S.p
          /\ objs = [i \in DOMAIN S.o |-> Filled(Made(S.o[i][1], S.o[i][2], S.o[i][3]), i)]
          /\ hist = <<"R " \o S.t \o Big1(S.p)>> \o [i \in DOMAIN S.o |-> S.o[i][1] \o Words(<<S.o[i][2]>>) \o Big1(S.o[i][3])] \o
                    [i \in DOMAIN S.o |-> "fill" \o Words(<<i, 17 * i>>)]
          /\ calls = 0
Objs == DOMAIN objs
Known(o) == \A k \in DOMAIN o.rows : o.rows[k].s[1] # -1
Step(ev, text) == \E a \in {After(ev)} : objs' = a.objs /\ hist' = Append(hist, text) /\ UNCHANGED P
DoCopy == \E f, t \in Objs : f # t /\ objs[f].k = objs[t].k /\ Known(objs[f]) /\ Step([op |-> "copy", f |-> f, t |-> t], "copy" \o Words(<<f, t>>))
DoMs == \E t \in Objs : Step([op |-> "ms", t |-> t, x |-> calls + 1], "ms" \o Words(<<t, calls + 1>>))
SizeOf(r) == {r.c, Zero} \cup {P[j] : j \in DOMAIN r.v} \cup (IF r.c = Zero THEN {} ELSE {DecB(r.c)})
(* Interesting sizes; of the others only a few. *)
DoSz == \E t \in Objs : \E i \in DOMAIN objs[t].rows : \E n \in SizeOf(objs[t].rows[i]) :
          /\ objs[t].own[i] = 1 /\ n # objs[t].rows[i].s /\ (objs[t].k = "e" => i = 1)
          /\ Step([op |-> "sz", t |-> t, r |-> i, n |-> n], "sz" \o Words(<<t, i - 1>>) \o " " \o Bn(n))
Rows(t) == {i \in DOMAIN objs[t].rows : objs[t].own[i] = 1 /\ Known(objs[t])}
DoPb == \E t \in Objs : \E i \in Rows(t) : objs[t].k \in {"v", "j"} /\ LtB(objs[t].rows[i].s, objs[t].rows[i].c)
          /\ Step([op |-> "pb", t |-> t, r |-> i, x |-> 200], "pb" \o Words(<<t, i - 1, 200>>))
DoPop == \E t \in Objs : \E i \in Rows(t) : objs[t].k \in {"v", "j"} /\ LtB(Zero, objs[t].rows[i].s)
          /\ Step([op |-> "pop", t |-> t, r |-> i], "pop" \o Words(<<t, i - 1>>))
DoBa == \E t \in Objs : \E i \in Rows(t) : \E n \in {0, 2} : objs[t].k \in {"v", "j"} /\ LeqB(AddB(objs[t].rows[i].s, Nr(n)), objs[t].rows[i].c)
          /\ Step([op |-> "ba", t |-> t, r |-> i, n |-> Nr(n), x |-> 201], "ba" \o Words(<<t, i - 1, n, 201>>))
DoRs == \E t \in Objs : \E i \in Rows(t) : objs[t].k \in {"v", "j"} /\ LtB(objs[t].rows[i].s, objs[t].rows[i].c)
          /\ \E n \in {Zero, AddB(objs[t].rows[i].s, Nr(1))} \cup {DecB(x) : x \in {objs[t].rows[i].s} \ {Zero}} :
               Step([op |-> "rs", t |-> t, r |-> i, n |-> n, x |-> 202], "rs" \o Words(<<t, i - 1>>) \o " " \o Bn(n) \o " 202")
DoDi == \E t \in Objs : Known(objs[t]) /\ \E i \in DOMAIN objs[t].rows : Step([op |-> "di", t |-> t, r |-> i], "di" \o Words(<<t, i - 1>>))
DoDpb == \E t \in Objs : Known(objs[t]) /\ objs[t].k = "e" /\ objs[t].rz = 1 /\ LtB(objs[t].rows[1].s, objs[t].rows[1].c) /\ Step([op |-> "dpb", t |-> t], "dpb" \o Words(<<t>>))
MCNext == /\ calls < MaxCalls /\ calls' = calls + 1
          /\ \/ "copy" \in Ops /\ DoCopy
             \/ "ms" \in Ops /\ DoMs
             \/ "sz" \in Ops /\ DoSz
             \/ "pb" \in Ops /\ DoPb
             \/ "pop" \in Ops /\ DoPop
             \/ "ba" \in Ops /\ DoBa
             \/ "rs" \in Ops /\ DoRs
             \/ "di" \in Ops /\ DoDi
             \/ "dpb" \in Ops /\ DoDpb
MCSpec == MCInit /\ [][MCNext]_mcvars
Abs == [i \in Objs |-> [k \in DOMAIN objs[i].rows |-> objs[i].rows[k].s]]
MCView == <<Abs, calls, hist[Len(hist)]>>
Emit == PrintT("@@ " \o Name \o ";" \o Join(hist'))
(* What a copy that was accepted has to do; nothing but the target changes. *)
Moved(f, t) == \A i \in DOMAIN objs[f].rows : LET a == objs[f].rows[i]  b == objs'[t].rows[i] IN
  /\ \A j \in DOMAIN a.v : LtB(P[j], a.s) => b.v[j] = a.v[j]
  /\ objs[t].own[i] = 1 => b.s = a.s
Kept == \A i \in Objs : \A k \in DOMAIN objs[i].rows : objs'[i].rows[k].c = objs[i].rows[k].c
CopiesRight == [][/\ Kept
                  /\ \A f, t \in Objs : hist' = Append(hist, "copy" \o Words(<<f, t>>)) /\ Fits(objs[f], objs[t]) => Moved(f, t)
                  /\ Cardinality({i \in Objs : objs'[i] # objs[i]}) <= 1]_mcvars
Together == \A i \in Objs : objs[i].k = "e" => objs[i].rows[1].s = objs[i].rows[2].s
=============================================================================
