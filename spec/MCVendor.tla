------------------------------ MODULE MCVendor ------------------------------
(* A reference implementation of the three libraries, as the calls of the  *)
(* run-time that each operation makes, with transfers carried out at any    *)
(* time, and failures anywhere: every one of its steps is one that Vendor   *)
(* allows (NeverStuck).                                                     *)
EXTENDS Vendor, SequencesExt
CONSTANTS Ops, Back, Devices, MaxCalls, MaxFaults, MaxPend,
  Wrong    \* a mistake for the reference to make, "" for none
VARIABLES
  todo,    \* the calls of the run-time still to be made
  rec,     \* event of the run-time -> transfers recorded
  own,     \* event of the client -> event of the run-time
  last,    \* what the last step made
  tried,   \* calls so far that could have failed
  ids, line, hist, calls, faults, stuck
mcvars == <<vendorVars, todo, rec, own, last, tried, ids, line, hist, calls, faults, stuck>>
S(x) == ToString(x)
Host == 900000
Addr(i) == 4096 * i
Fresh == CHOOSE p \in {Addr(i) : i \in 1..8} : p \notin DOMAIN blks
MCInit ==
  /\ back = Back /\ ndev = Devices /\ dev = 0 /\ res = Empty /\ blks = Empty /\ held = Empty /\ strs = Empty
  /\ wrs = Empty /\ cps = Empty /\ evs = Empty /\ revs = {} /\ pend = Empty /\ c = Idle
  /\ todo = <<>> /\ rec = Empty /\ own = Empty /\ last = -1 /\ tried = 0 /\ ids = 1
  /\ line = "" /\ hist = <<>> /\ calls = 0 /\ faults = 0 /\ stuck = FALSE

(* Objects that the models make: up to two of each kind. *)
Slots(f) == {CHOOSE i \in {1, 2, 3} : i \notin DOMAIN f} \cap {1, 2}
Calls ==
  [dev |-> {<<d>> : d \in 0..(Devices - 1)},
   res |-> {<<r, k, d>> : r \in Slots(res), k \in 0..2, d \in IF Back = "s" THEN {-1} \cup DOMAIN wrs ELSE {-1, Devices - 1}},
   rdel |-> {<<r>> : r \in {r \in DOMAIN res : \A h \in DOMAIN held : held[h].r # r}},
   alloc |-> {<<h, r, n, 8>> : h \in Slots(held), r \in DOMAIN res, n \in {0, 16}},
   free |-> {<<h>> : h \in DOMAIN held},
   null |-> {<<r>> : r \in DOMAIN res},
   eq |-> {<<1, 2>>},
   wnew |-> IF Back = "h" THEN {} ELSE {<<w, d>> : w \in Slots(wrs), d \in IF Back = "s" THEN {-1} ELSE {-1, Devices - 1, Devices}},
   wcopy |-> {<<w, v>> : w \in Slots(wrs), v \in DOMAIN wrs},
   wmove |-> {<<w, v>> : w \in Slots(wrs), v \in DOMAIN wrs},
   wasg |-> {<<w, v>> : w, v \in DOMAIN wrs},
   wmasg |-> {<<w, v>> : w, v \in DOMAIN wrs},
   wdel |-> {<<w>> : w \in DOMAIN wrs},
   wsync |-> IF Back = "c" THEN {<<w>> : w \in DOMAIN wrs} ELSE {},
   cnew |-> {<<k, 1, -1>> : k \in IF Back = "s" THEN {} ELSE Slots(cps)} \cup {<<k, s, w>> : k \in Slots(cps), w \in IF Back = "h" THEN {} ELSE DOMAIN wrs, s \in IF Back = "s" THEN {0, 1} ELSE {0}},
   cdel |-> {<<k>> : k \in DOMAIN cps},
   copy |-> {<<k, e, held[h].a, Host, n, 0>> : k \in DOMAIN cps, e \in Slots(evs), h \in {h \in DOMAIN held : held[h].a > 0}, n \in {0, 8}},
   fill |-> {<<k, e, held[h].a, 7, 8>> : k \in DOMAIN cps, e \in Slots(evs), h \in {h \in DOMAIN held : held[h].a > 0}},
   ewait |-> {<<e>> : e \in DOMAIN evs}, eign |-> {<<e>> : e \in DOMAIN evs}, edrop |-> {<<e>> : e \in DOMAIN evs}]
Of(a) == CHOOSE h \in DOMAIN held : held[h].a = a
Text(op, x) ==
  CASE op = "copy" -> "copy " \o S(x[1]) \o " " \o S(x[2]) \o " 0 0 " \o S(Of(x[3])) \o " 0 " \o S(x[5]) \o " 0"
    [] op = "fill" -> "fill " \o S(x[1]) \o " " \o S(x[2]) \o " " \o S(Of(x[3])) \o " 0 8 7"
    [] OTHER -> FoldLeft(LAMBDA acc, v : acc \o " " \o S(v), op, x)

(* ------------------------------------------------ the reference's steps --*)
Step(t, v) == [t |-> t, v |-> v]
OnDevice(d, steps) == IF Back # "s" /\ d # -1 THEN <<Step("set", d)>> \o steps \o (IF Wrong = "device" THEN <<>> ELSE <<Step("set", dev)>>) ELSE steps
(* Streams that nobody has to do with, once owners are as given. *)
Unowned(w, k, r) == {s \in DOMAIN strs : ~strs[s] /\ s \notin Owners(w, k, r)}
Drops(ss) == [i \in 1..Cardinality(ss) |-> Step("sd", SetToSeq(ss)[i])]
Wait(e) == IF Back = "s" THEN (IF evs[e] = {} THEN <<>> ELSE <<Step("txwait", evs[e])>>)
           ELSE IF e \in DOMAIN own THEN (IF Wrong = "wait" THEN <<>> ELSE <<Step("es", own[e])>>) \o <<Step("ed", own[e])>> ELSE <<>>
Plan(op, x) ==
  CASE op = "dev" -> <<Step("set", x[1])>>
    [] op = "res" -> IF Back = "s" /\ x[3] < 0 THEN <<Step("sc", 0)>> ELSE <<>>
    [] op = "rdel" -> Drops(Unowned(wrs, cps, Drop(res, x[1])))
    [] op = "alloc" -> IF x[3] = 0 THEN <<>> ELSE OnDevice(res[x[2]].dev, <<Step("mal", x[3])>>)
    [] op = "free" -> IF held[x[1]].a < 0 THEN <<>> ELSE OnDevice(res[held[x[1]].r].dev, <<Step("fre", held[x[1]].a)>>)
    [] op = "wnew" -> OnDevice(IF Back = "s" THEN -1 ELSE IF x[2] < 0 THEN dev ELSE x[2], <<Step("sc", 0)>>)
    [] op \in {"wasg", "wmasg"} -> Drops(Unowned((IF x[1] = x[2] THEN Empty ELSE (x[1] :> wrs[x[2]])) @@ wrs, cps, res))
    [] op = "wdel" -> Drops(Unowned(Drop(wrs, x[1]), IF Wrong = "owner" THEN Empty ELSE cps, res))
    [] op = "cdel" -> Drops(Unowned(wrs, Drop(cps, x[1]), res))
    [] op = "wsync" -> <<Step("ss", wrs[x[1]])>>
    [] op \in {"copy", "fill"} ->
         IF x[5] = 0 THEN (IF cps[x[1]].sync \/ Back = "s" THEN <<>> ELSE <<Step("ec", 0), Step("er", cps[x[1]].s)>>)
         ELSE IF Back = "s" THEN <<Step("tx", cps[x[1]].s)>> \o (IF cps[x[1]].sync THEN <<Step("txall", 0)>> ELSE <<>>)
         ELSE IF cps[x[1]].sync THEN <<Step("tx", -1), Step("txall", 0)>>
         ELSE IF Wrong = "order" THEN <<Step("ec", 0), Step("er", cps[x[1]].s), Step("tx", cps[x[1]].s)>>
         ELSE <<Step("tx", cps[x[1]].s), Step("ec", 0), Step("er", cps[x[1]].s)>>
    [] op \in {"ewait", "edrop"} -> Wait(x[1])
    [] op = "eign" -> IF Back # "s" /\ x[1] \in DOMAIN own THEN <<Step("ed", own[x[1]])>> ELSE <<>>
    [] OTHER -> <<>>
Begin ==
  /\ c = Idle /\ calls < MaxCalls /\ ~stuck
  /\ \E op \in Ops : \E x \in Calls[op] :
       /\ op = "eq" => {1, 2} \subseteq DOMAIN res
       \* the client does not give back memory that is in use
       /\ op = "free" => DOMAIN pend = {}
       /\ IF ENABLED Call([op |-> op, x |-> x])
          THEN Call([op |-> op, x |-> x]) /\ UNCHANGED stuck
          ELSE stuck' = TRUE /\ UNCHANGED vendorVars
       /\ todo' = Plan(op, x) /\ line' = Text(op, x)
  /\ calls' = calls + 1 /\ last' = -1 /\ tried' = 0
  /\ UNCHANGED <<rec, own, ids, hist, faults>>

Fallible(t) == IF Back = "s" THEN t = "mal" ELSE t \in {"mal", "sc", "tx", "ec", "er"}
(* What is left to do when a call of the run-time has failed. *)
Cleanup(t) == (IF t = "er" THEN <<Step("es", last), Step("ed", last)>> ELSE <<>>)
              \o (IF dev # c.dev THEN <<Step("set", c.dev)>> ELSE <<>>)
Event(s, bad) ==
  LET r == IF bad THEN 1 ELSE 0 IN
  CASE s.t = "set" -> [f |-> "set", x |-> <<s.v>>, r |-> r]
    [] s.t = "mal" -> [f |-> "mal", x |-> <<From.kind, s.v, IF Back = "s" THEN 8 ELSE 256, IF bad THEN -1 ELSE Fresh, IF Back = "s" THEN From.q ELSE 0>>, r |-> r]
    [] s.t = "fre" -> [f |-> "fre", x |-> <<IF Back # "s" /\ blks[s.v].kind = 2 THEN 2 ELSE 0, s.v, IF Back = "s" THEN blks[s.v].q ELSE 0>>, r |-> 0]
    [] s.t = "sc" -> [f |-> "sc", x |-> <<ids>>, r |-> r]
    [] s.t = "sd" -> [f |-> "sd", x |-> <<s.v>>, r |-> 0]
    [] s.t = "ss" -> [f |-> "ss", x |-> <<s.v>>, r |-> 0]
    [] s.t = "ec" -> [f |-> "ec", x |-> <<ids>>, r |-> r]
    [] s.t = "ed" -> [f |-> "ed", x |-> <<s.v>>, r |-> 0]
    [] s.t = "er" -> [f |-> "er", x |-> <<last, s.v>>, r |-> r]
    [] s.t = "es" -> [f |-> "es", x |-> <<s.v>>, r |-> 0]
    [] s.t = "tx" -> [f |-> "tx", x |-> <<ids, s.v, IF c.op = "fill" THEN 1 ELSE 0, c.x[3], c.x[4], c.x[5], IF c.op = "fill" THEN -1 ELSE 1>>, r |-> r]
(* What the run-time waits for before it goes on. *)
Ready(s) ==
  CASE s.t = "es" -> (s.v \in DOMAIN rec => rec[s.v] \cap DOMAIN pend = {})
    [] s.t = "ss" -> (\A t \in DOMAIN pend : pend[t] # s.v)
    [] s.t = "txwait" -> s.v \cap DOMAIN pend = {}
    [] s.t = "txall" -> c.txs \cap DOMAIN pend = {}
    [] s.t = "tx" -> Cardinality(DOMAIN pend) < MaxPend
    [] OTHER -> TRUE
Next1 ==
  /\ c # Idle /\ todo # <<>> /\ ~stuck /\ Ready(Head(todo))
  /\ LET s == Head(todo) IN
     IF s.t \in {"txwait", "txall"} THEN todo' = Tail(todo) /\ UNCHANGED <<vendorVars, rec, last, tried, ids, faults, stuck>>
     ELSE \E bad \in (IF s.t = "set" THEN {s.v >= Devices} ELSE IF Fallible(s.t) /\ faults < MaxFaults THEN {TRUE, FALSE} ELSE {FALSE}) :
          LET e == Event(s, bad) IN
          /\ IF ENABLED Api(e) THEN Api(e) /\ UNCHANGED stuck ELSE stuck' = TRUE /\ UNCHANGED vendorVars
          /\ todo' = IF bad THEN Cleanup(s.t) ELSE Tail(todo)
          /\ tried' = IF Fallible(s.t) THEN tried + 1 ELSE tried
          /\ faults' = IF bad /\ s.t # "set" THEN faults + 1 ELSE faults
          /\ ids' = IF s.t \in {"sc", "ec", "tx"} THEN ids + 1 ELSE ids
          /\ last' = CASE s.t \in {"sc", "ec"} -> ids [] s.t = "mal" -> e.x[4] [] OTHER -> last
          /\ rec' = CASE s.t = "er" /\ ~bad -> Put(rec, last, {t \in DOMAIN pend : pend[t] = s.v})
                      [] s.t = "ed" -> Drop(rec, s.v)
                      [] OTHER -> rec
  /\ UNCHANGED <<own, line, hist, calls>>
(* Transfers are carried out when the run-time likes; those of a stream of *)
(* CUDA in their order.                                                     *)
Later ==
  /\ ~stuck
  /\ \E t \in DOMAIN pend : (Back = "s" \/ \A u \in DOMAIN pend : pend[u] = pend[t] => u >= t) /\ Do(t)
  /\ UNCHANGED <<todo, rec, own, last, tried, ids, line, hist, calls, faults, stuck>>
Result ==
  CASE c.failed -> -1
    [] c.op \in {"wnew"} -> last
    [] c.op \in {"wcopy", "wmove", "wasg", "wmasg"} -> wrs[c.x[2]]
    [] c.op = "alloc" -> last
    [] c.op = "copy" -> 2
    [] c.op = "fill" -> 3
    [] c.op = "eq" -> IF Equal(res[1], res[2]) THEN 1 ELSE 0
    [] OTHER -> 0
End ==
  /\ c # Idle /\ todo = <<>> /\ ~stuck
  /\ LET e == [r |-> IF c.failed THEN (IF Back = "s" THEN "bad" ELSE "exc") ELSE "ok", a |-> Result, cur |-> dev] IN
     IF ENABLED Return(e) THEN Return(e) /\ UNCHANGED stuck ELSE stuck' = TRUE /\ UNCHANGED vendorVars
  /\ own' = IF c.failed THEN own
            ELSE CASE c.op \in {"copy", "fill"} -> IF last >= 0 THEN Put(own, c.x[2], last) ELSE own
                   [] c.op \in {"ewait", "eign", "edrop"} -> Drop(own, c.x[1])
                   [] OTHER -> own
  /\ hist' = hist \o (IF c.failed /\ tried > 0 /\ ~(c.op = "wnew" /\ c.x[2] >= Devices) THEN <<"E " \o S(tried)>> ELSE <<>>) \o <<line>>
  /\ line' = ""
  /\ UNCHANGED <<todo, rec, last, tried, ids, calls, faults>>
MCNext == Begin \/ Next1 \/ Later \/ End
MCSpec == MCInit /\ [][MCNext]_mcvars
NeverStuck == ~stuck
(* Numbers are given out in order; only which is which matters. *)
MCView == <<vendorVars, todo, rec, own, line, calls, faults, stuck>>
Join(s) == FoldLeft(LAMBDA acc, x : acc \o ";" \o x, "", s)
Emit == Len(hist') > Len(hist) => PrintT("@@ R" \o Join(hist'))
=============================================================================
