------------------------------- MODULE Vendor -------------------------------
(* The CUDA, HIP and SYCL libraries: memory resources, stream and queue     *)
(* wrappers, copy objects and the events they return, and the calls that    *)
(* they make of the run-time below them.  A call into the library starts    *)
(* with Call, ends with Return, and in between makes calls of the run-time  *)
(* (Api); the run-time carries out transfers when it likes (Do), as long as *)
(* it does so before whoever waits for them goes on.                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES
  back,    \* "c" CUDA, "h" HIP, "s" SYCL
  ndev,    \* number of devices
  dev,     \* the current device
  res,     \* memory resources: kind (0 device, 1 managed, 2 host), device, queue
  blks,    \* live blocks of the run-time: size, kind, queue
  held,    \* what the client holds: block, resource
  strs,    \* live streams: whether the client made it
  wrs,     \* wrappers: the stream each is about
  cps,     \* copy objects: synchronous or not, stream (-1: none)
  evs,     \* events of the client: transfers that it stands for
  revs,    \* live events of the run-time
  pend,    \* transfers that are not done yet: stream
  c        \* the call under way
vendorVars == <<back, ndev, dev, res, blks, held, strs, wrs, cps, evs, revs, pend, c>>
Idle == [op |-> "none"]
Empty == <<>>
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Put(f, x, v) == (x :> v) @@ f

Reset(b, n) ==
  /\ back' = b /\ ndev' = n /\ dev' = 0 /\ res' = Empty /\ blks' = Empty /\ held' = Empty /\ strs' = Empty
  /\ wrs' = Empty /\ cps' = Empty /\ evs' = Empty /\ revs' = {} /\ pend' = Empty /\ c' = Idle
VendorInit ==
  /\ back = "c" /\ ndev = 1 /\ dev = 0 /\ res = Empty /\ blks = Empty /\ held = Empty /\ strs = Empty
  /\ wrs = Empty /\ cps = Empty /\ evs = Empty /\ revs = {} /\ pend = Empty /\ c = Idle

Known(op, x) ==
  CASE op \in {"rdel", "null"} -> x[1] \in DOMAIN res
    [] op = "eq" -> x[1] \in DOMAIN res /\ x[2] \in DOMAIN res
    [] op = "res" -> back = "s" /\ x[3] >= 0 => x[3] \in DOMAIN wrs
    [] op = "alloc" -> x[2] \in DOMAIN res /\ x[1] \notin DOMAIN held
    [] op = "free" -> x[1] \in DOMAIN held
    [] op \in {"wdel", "wsync"} -> x[1] \in DOMAIN wrs
    [] op \in {"wcopy", "wmove", "wasg", "wmasg"} -> x[2] \in DOMAIN wrs
    [] op = "cnew" -> x[3] >= 0 => x[3] \in DOMAIN wrs
    [] op \in {"cdel", "copy", "fill"} -> x[1] \in DOMAIN cps
    [] op \in {"ewait", "eign", "edrop"} -> x[1] \in DOMAIN evs
    [] op = "jag" -> x[1] \in DOMAIN cps /\ x[2] \in DOMAIN res
    [] OTHER -> TRUE
Call(e) ==
  /\ c = Idle /\ Known(e.op, e.x)
  /\ c' = [op |-> e.op, x |-> e.x, dev |-> dev, blks |-> DOMAIN blks, strs |-> DOMAIN strs, revs |-> revs,
           failed |-> FALSE, txs |-> {}, local |-> {}, prog |-> 0]
  /\ UNCHANGED <<back, ndev, dev, res, blks, held, strs, wrs, cps, evs, revs, pend>>

(* The device that a resource or a stream is to be made on. *)
On(d) == IF d < 0 THEN c.dev ELSE d
(* The resource that a call allocates from. *)
From == IF c.op \in {"alloc", "jag"} THEN res[c.x[2]] ELSE [kind |-> -1]
Fail == c' = [c EXCEPT !.failed = TRUE]
Keep == UNCHANGED <<back, ndev, res, held, wrs, cps, evs>>

SetDevice(x, r) ==
  /\ r = 0 <=> (x[1] >= 0 /\ x[1] < ndev)
  /\ IF r = 0 THEN dev' = x[1] /\ UNCHANGED c ELSE Fail /\ UNCHANGED dev
  /\ UNCHANGED <<blks, strs, revs, pend>> /\ Keep
(* x: kind, size, alignment, address, queue *)
Malloc(x, r) ==
  /\ c.op \in {"alloc", "jag"}
  /\ x[1] = From.kind
  /\ c.op = "alloc" => x[2] = c.x[3]
  /\ back # "s" /\ From.kind = 0 => dev = From.dev
  /\ back = "s" => x[5] = From.q /\ (c.op = "alloc" /\ c.x[4] > 0 => x[3] % c.x[4] = 0)
  /\ IF r = 0 THEN /\ x[4] \notin DOMAIN blks
                   /\ blks' = Put(blks, x[4], [n |-> x[2], kind |-> x[1], q |-> x[5]]) /\ UNCHANGED c
              ELSE Fail /\ UNCHANGED blks
  /\ UNCHANGED <<dev, strs, revs, pend>> /\ Keep
(* x: function (2: that of page-locked memory), address, queue *)
Release(x) ==
  /\ x[2] \in DOMAIN blks
  /\ x[1] = (IF back # "s" /\ blks[x[2]].kind = 2 THEN 2 ELSE 0)
  /\ back = "s" => x[3] = blks[x[2]].q
  /\ blks' = Drop(blks, x[2])
  /\ UNCHANGED <<dev, strs, revs, pend, c>> /\ Keep
StreamNew(x, r) ==
  /\ c.op = "wnew" /\ back # "s" => dev = On(c.x[2])
  /\ IF r = 0 THEN strs' = Put(strs, x[1], c.op = "user") /\ UNCHANGED c ELSE Fail /\ UNCHANGED strs
  /\ UNCHANGED <<dev, blks, revs, pend>> /\ Keep
StreamDrop(x) ==
  /\ x[1] \in DOMAIN strs
  /\ strs[x[1]] <=> c.op = "udel"
  /\ strs' = Drop(strs, x[1])
  /\ UNCHANGED <<dev, blks, revs, pend, c>> /\ Keep
StreamSync(x) ==
  /\ x[1] \in DOMAIN strs \cup {0}
  /\ UNCHANGED <<dev, blks, strs, revs, pend, c>> /\ Keep
EventNew(x, r) ==
  /\ IF r = 0 THEN revs' = revs \cup {x[1]} /\ UNCHANGED c ELSE Fail /\ UNCHANGED revs
  /\ UNCHANGED <<dev, blks, strs, pend>> /\ Keep
EventDrop(x) ==
  /\ x[1] \in revs
  /\ revs' = revs \ {x[1]}
  /\ UNCHANGED <<dev, blks, strs, pend, c>> /\ Keep
EventRecord(x, r) ==
  /\ x[1] \in revs /\ x[2] \in DOMAIN strs \cup {0}
  /\ IF r = 0 THEN UNCHANGED c ELSE Fail
  /\ UNCHANGED <<dev, blks, strs, revs, pend>> /\ Keep
EventSync(x) ==
  /\ x[1] \in revs
  /\ UNCHANGED <<dev, blks, strs, revs, pend, c>> /\ Keep

(* x: number, stream (-1: done on return), 0 copy or 1 fill, to, from or    *)
(* value, size, direction (0 host to host, 1 host to device, 2 device to    *)
(* host, 3 device to device, 4 up to the run-time, -1 not given).           *)
Direction == <<1, 2, 0, 3, 4>>
InCopy(x) == /\ x[3] = 0
             /\ x[4] = c.x[3] + c.prog /\ x[5] = c.x[4] + c.prog /\ c.prog + x[6] <= c.x[5]
             /\ x[7] \in {Direction[c.x[6] + 1], 4, -1}
InFill(x) == /\ x[3] = 1
             /\ x[4] = c.x[3] + c.prog /\ x[5] = c.x[4] % 256 /\ c.prog + x[6] <= c.x[5]
(* A fill by way of a copy of memory with the value in it. *)
Instead(x) == /\ c.op = "fill" /\ x[3] = 0 /\ x[5] = -2
              /\ x[4] >= c.x[3] /\ x[4] + x[6] <= c.x[3] + c.x[5]
Transfer(x, r) ==
  /\ c.op \in {"copy", "fill", "jag"}
  /\ LET me == cps[c.x[1]] IN x[2] \in (IF me.sync THEN {-1, 0, me.s} ELSE {me.s})
  /\ x[2] > 0 => x[2] \in DOMAIN strs
  /\ c.op = "copy" => InCopy(x)
  /\ c.op = "fill" => (InFill(x) \/ Instead(x))
  /\ IF r = 0 THEN /\ x[1] \notin DOMAIN pend
                   /\ pend' = Put(pend, x[1], x[2])
                   /\ c' = [c EXCEPT !.txs = @ \cup {x[1]},
                                     !.local = IF x[4] = -2 \/ (x[3] = 0 /\ x[5] = -2) THEN @ \cup {x[1]} ELSE @,
                                     !.prog = IF Instead(x) THEN @ ELSE @ + x[6]]
              ELSE Fail /\ UNCHANGED pend
  /\ UNCHANGED <<dev, blks, strs, revs>> /\ Keep
Do(t) ==
  /\ t \in DOMAIN pend
  /\ pend' = Drop(pend, t)
  /\ UNCHANGED <<dev, blks, strs, revs, c>> /\ Keep

Api(e) ==
  /\ c # Idle
  /\ CASE e.f = "set" -> SetDevice(e.x, e.r)
       [] e.f = "mal" -> Malloc(e.x, e.r)
       [] e.f = "fre" -> Release(e.x)
       [] e.f = "sc" -> StreamNew(e.x, e.r)
       [] e.f = "sd" -> StreamDrop(e.x)
       [] e.f = "ss" -> StreamSync(e.x)
       [] e.f = "ec" -> EventNew(e.x, e.r)
       [] e.f = "ed" -> EventDrop(e.x)
       [] e.f = "er" -> EventRecord(e.x, e.r)
       [] e.f = "es" -> EventSync(e.x)
       [] e.f = "tx" -> Transfer(e.x, e.r)

(* -------------------------------------------------------------- returns --*)
New == DOMAIN blks \ c.blks
Gone == c.blks \ DOMAIN blks
Made == DOMAIN strs \ c.strs
Unfinished(ts) == ts \cap DOMAIN pend # {}
(* Streams of the library that somebody has to do with. *)
Owners(w, k, r) == {w[i] : i \in DOMAIN w} \cup {k[i].s : i \in DOMAIN k} \cup {r[i].q : i \in DOMAIN r}
Equal(a, b) == IF back = "s" THEN a.q = b.q ELSE a.kind = b.kind /\ (a.kind # 0 \/ a.dev = b.dev)
Judged(a, b) == back # "s" \/ a.kind = b.kind \/ a.q # b.q
Clean == New = {} /\ Gone = {}

Finished(a) ==
  /\ Clean
  /\ c.op \in {"jag"} => a = 1 /\ ~Unfinished(c.txs)
  /\ c.op = "ewait" => ~Unfinished(evs[c.x[1]])
  /\ c.op = "edrop" => ~Unfinished(evs[c.x[1]])
  /\ c.op = "wsync" => \A t \in DOMAIN pend : pend[t] # wrs[c.x[1]]
  /\ c.op = "eq" => (Judged(res[c.x[1]], res[c.x[2]]) => (a = 1 <=> Equal(res[c.x[1]], res[c.x[2]])))
  /\ UNCHANGED <<res, held, wrs, cps>>
  /\ evs' = CASE c.op \in {"ewait", "eign"} -> [evs EXCEPT ![c.x[1]] = {}]
              [] c.op = "edrop" -> Drop(evs, c.x[1])
              [] OTHER -> evs
Plain == {"dev", "null", "eq", "user", "udel", "wsync", "ewait", "eign", "edrop", "jag"}
Allocated(a) ==
  /\ Gone = {}
  /\ IF c.x[3] = 0 THEN New = {} /\ a = -1
     ELSE New = {a} /\ blks[a].n = c.x[3]
  /\ held' = Put(held, c.x[1], [a |-> a, r |-> c.x[2]])
  /\ UNCHANGED <<res, wrs, cps, evs>>
Freed ==
  /\ New = {}
  /\ Gone = (IF held[c.x[1]].a = -1 THEN {} ELSE {held[c.x[1]].a})
  /\ held' = Drop(held, c.x[1])
  /\ UNCHANGED <<res, wrs, cps, evs>>
(* A new resource of SYCL that is not given a queue makes its own. *)
Resource ==
  /\ Clean
  /\ \E q \in (IF back # "s" THEN {-1} ELSE IF c.x[3] >= 0 THEN {wrs[c.x[3]]} ELSE Made) :
       res' = Put(res, c.x[1], [kind |-> c.x[2], dev |-> IF c.x[2] = 0 /\ back # "s" THEN On(c.x[3]) ELSE -1, q |-> q])
  /\ UNCHANGED <<held, wrs, cps, evs>>
Wrapper(a) ==
  /\ Clean
  /\ CASE c.op = "wnew" -> a \in Made /\ wrs' = Put(wrs, c.x[1], a)
       [] c.op = "wbor" -> a = c.x[2] /\ wrs' = Put(wrs, c.x[1], a)
       [] c.op \in {"wcopy", "wasg"} -> a = wrs[c.x[2]] /\ wrs' = Put(wrs, c.x[1], a)
       [] c.op \in {"wmove", "wmasg"} -> /\ a = wrs[c.x[2]]
                                         /\ wrs' = Put(IF c.x[1] = c.x[2] THEN wrs ELSE Drop(wrs, c.x[2]), c.x[1], a)
  /\ UNCHANGED <<res, held, cps, evs>>
CopyObject ==
  /\ Clean
  /\ cps' = Put(cps, c.x[1], [sync |-> c.x[2] = 1, s |-> IF c.x[3] < 0 THEN -1 ELSE wrs[c.x[3]]])
  /\ UNCHANGED <<res, held, wrs, evs>>
Deleted ==
  /\ Clean
  /\ res' = IF c.op = "rdel" THEN Drop(res, c.x[1]) ELSE res
  /\ wrs' = IF c.op = "wdel" THEN Drop(wrs, c.x[1]) ELSE wrs
  /\ cps' = IF c.op = "cdel" THEN Drop(cps, c.x[1]) ELSE cps
  /\ UNCHANGED <<held, evs>>
(* Everything that the call started is what its event stands for; copies   *)
(* that are not asynchronous are done, and nothing goes on that would use   *)
(* memory that goes away with the call.                                     *)
Copied(a) ==
  /\ Clean
  /\ a >= 2                                    \* there is an event
  /\ c.op = "copy" => c.prog = c.x[5]
  /\ c.op = "fill" => (c.prog = c.x[5] \/ (a = 3 /\ ~Unfinished(c.txs)))
  /\ cps[c.x[1]].sync => ~Unfinished(c.txs)
  /\ ~Unfinished(c.local)
  /\ evs' = Put(evs, c.x[2], c.txs)
  /\ UNCHANGED <<res, held, wrs, cps>>
Return(e) ==
  /\ c # Idle
  /\ e.cur = dev
  /\ dev = (IF c.op = "dev" THEN c.x[1] ELSE c.dev)
  /\ IF c.failed
     THEN /\ e.r # "ok" /\ (back = "s" => e.r = "bad")
          /\ Clean /\ Made = {} /\ revs \subseteq c.revs
          /\ UNCHANGED <<res, held, wrs, cps, evs>>
     ELSE /\ e.r = "ok"
          /\ CASE c.op \in Plain -> Finished(e.a)
               [] c.op = "alloc" -> Allocated(e.a)
               [] c.op = "free" -> Freed
               [] c.op = "res" -> Resource
               [] c.op \in {"wnew", "wbor", "wcopy", "wmove", "wasg", "wmasg"} -> Wrapper(e.a)
               [] c.op = "cnew" -> CopyObject
               [] c.op \in {"rdel", "wdel", "cdel"} -> Deleted
               [] c.op \in {"copy", "fill"} -> Copied(e.a)
  (* streams that the library has made live exactly as long as an owner *)
  /\ {s \in DOMAIN strs : ~strs[s]} \subseteq Owners(wrs', cps', res')
  /\ Owners(wrs', cps', res') \subseteq DOMAIN strs \cup {-1}
  /\ c' = Idle
  /\ UNCHANGED <<back, ndev, dev, blks, strs, revs, pend>>
(* The client has let go of everything. *)
Fin ==
  /\ c = Idle
  /\ DOMAIN blks = {} /\ DOMAIN strs = {} /\ revs = {} /\ DOMAIN pend = {}
  /\ DOMAIN wrs = {} /\ DOMAIN cps = {} /\ DOMAIN res = {} /\ DOMAIN held = {}
  /\ UNCHANGED vendorVars

VendorStep(e) ==
  CASE e.e = "R" -> Reset(e.b, e.n)
    [] e.e = "call" -> Call(e)
    [] e.e = "api" -> Api(e)
    [] e.e = "do" -> Do(e.x[1])
    [] e.e = "ret" -> Return(e)
    [] e.e = "fin" -> Fin
    [] e.e = "end" -> c = Idle /\ UNCHANGED vendorVars
    [] OTHER -> FALSE

(* ----------------------------------------------------------- properties --*)
(* Between calls, what the run-time holds is exactly what the client knows *)
(* of: blocks it has not given back, streams with an owner.                 *)
BlocksKnown == c = Idle => DOMAIN blks = {held[h].a : h \in DOMAIN held} \ {-1}
HeldApart == \A g, h \in DOMAIN held : g # h /\ held[g].a = held[h].a => held[g].a = -1
StreamsOwned == c = Idle => Owners(wrs, cps, res) \subseteq DOMAIN strs \cup {-1}
SyncDone == c = Idle => \A t \in DOMAIN pend : pend[t] # -1
RightKind == \A h \in DOMAIN held : held[h].a # -1 /\ c = Idle => blks[held[h].a].kind = res[held[h].r].kind
=============================================================================
