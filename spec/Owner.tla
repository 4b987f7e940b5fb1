------------------------------- MODULE Owner -------------------------------
(***************************************************************************)
(* Typed ownership on top of a memory resource: allocator (C16), unique    *)
(* pointers and array (C17).  A call is a sequence of events:              *)
(*   [e |-> "call", op, h, h2, n, es, ea, vals, vast]                      *)
(*   [e |-> "ua", sz, al, r, a] / [e |-> "ud", sz, al, a]   upstream       *)
(*   [e |-> "ct", a, v]  an object is constructed      [e |-> "dt", a]     *)
(*   [e |-> "cx", a]     its constructor throws                            *)
(*   [e |-> "ret", r, a] (r: "ok", "bad" = bad_alloc, "throw")             *)
(* Ops: create  "bytes" "space" (no objects), "new", "obj", "arr" (with    *)
(*              objects), "alloc", "copy" (trivial types)                  *)
(*      destroy "free" (bytes, space, new: must be released by hand),      *)
(*              "reset", "die"                                             *)
(*      "move" (h := move(h2)), "swap", "release", "adopt"                 *)
(*      "null" (deallocate a null pointer)                                 *)
(* A handle is [a, sz, al, n, es, kind, raw]: it owns the block at a       *)
(* (none if a = -1) and n objects, es bytes apart, from its beginning.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES blocks,   \* position -> [sz, al], held from the resource
          objs,     \* position -> value, of all objects alive in blocks
          hs,       \* handle -> what it owns
          cur       \* the call in progress, or idle
ownerVars == <<blocks, objs, hs, cur>>

Without(f, s) == [x \in DOMAIN f \ s |-> f[x]]
Idle == [op |-> "-"]
Empty == [a |-> -1, sz |-> 0, al |-> 0, n |-> 0, es |-> 1, vals |-> <<>>]

OwnerInit == blocks = <<>> /\ objs = <<>> /\ hs = <<>> /\ cur = Idle

Creates == {"bytes", "space", "new", "obj", "arr", "alloc", "copy"}
Constructs == {"new", "obj", "arr"}
Exact == {"bytes", "space", "new"}              \* the alignment is given exactly
Destroys == {"free", "reset", "die"}

Start(ev) ==
  /\ cur = Idle
  /\ ev.op \in Creates => ev.h \notin DOMAIN hs
  /\ ev.op \notin Creates /\ ev.op # "null" => ev.h \in DOMAIN hs
  /\ cur' = [op |-> ev.op, h |-> ev.h, h2 |-> ev.h2, n |-> ev.n, es |-> ev.es, ea |-> ev.ea, vals |-> ev.vals, vast |-> ev.vast,
             b0 |-> blocks, o0 |-> objs, got |-> FALSE, failed |-> FALSE, thrown |-> FALSE, made |-> {}]
  /\ UNCHANGED <<blocks, objs, hs>>

Pow2(x) == x \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096}

(* Memory is obtained at most once in a call, and only by those that create
   something, in exactly the size that is needed. *)
UpAlloc(ev) ==
  /\ cur.op \in Creates /\ ~cur.got /\ cur.vast = 0
  /\ ev.sz = cur.n * cur.es
  /\ Pow2(ev.al)
  /\ IF cur.op \in Exact THEN ev.al = cur.ea ELSE ev.al >= cur.ea
  /\ cur' = [cur EXCEPT !.got = TRUE, !.failed = (ev.r # "ok")]
  /\ blocks' = IF ev.r = "ok" /\ ev.sz > 0 THEN (ev.a :> [sz |-> ev.sz, al |-> ev.al]) @@ blocks ELSE blocks
  /\ UNCHANGED <<objs, hs>>

(* Only memory without objects in it is given back, with what it was
   obtained with. *)
UpFree(ev) ==
  /\ cur # Idle
  /\ IF ev.a = -1 THEN UNCHANGED blocks
     ELSE /\ ev.a \in DOMAIN blocks
          /\ blocks[ev.a].sz = ev.sz /\ blocks[ev.a].al = ev.al
          /\ \A o \in DOMAIN objs : ~(ev.a <= o /\ o < ev.a + ev.sz)
          /\ blocks' = Without(blocks, {ev.a})
  /\ UNCHANGED <<objs, hs, cur>>

InBlock(a, n) == \E b \in DOMAIN blocks : b <= a /\ a + n <= b + blocks[b].sz

Construct(ev) ==
  /\ cur # Idle /\ cur.op \in Constructs /\ ~cur.thrown
  /\ ev.a \notin DOMAIN objs /\ ev.a \notin cur.made
  /\ InBlock(ev.a, cur.es) /\ ev.a % cur.ea = 0
  /\ objs' = (ev.a :> ev.v) @@ objs
  /\ cur' = [cur EXCEPT !.made = @ \cup {ev.a}]
  /\ UNCHANGED <<blocks, hs>>

Throw(ev) ==
  /\ cur # Idle /\ cur.op \in Constructs \cup {"copy"} /\ ~cur.thrown
  /\ ev.a \notin DOMAIN objs /\ ev.a \notin cur.made
  /\ InBlock(ev.a, cur.es)
  /\ cur' = [cur EXCEPT !.thrown = TRUE, !.made = @ \cup {ev.a}]
  /\ UNCHANGED <<blocks, objs, hs>>

Destroy(ev) ==
  /\ cur # Idle
  /\ ev.a \in DOMAIN objs
  /\ objs' = Without(objs, {ev.a})
  /\ UNCHANGED <<blocks, hs, cur>>

(* The objects of a handle. *)
Places(g) == {g.a + i * g.es : i \in 0..(g.n - 1)}

NothingChanged == blocks = cur.b0 /\ objs = cur.o0

(* Exactly what this handle owned is gone. *)
Gone(g) ==
  /\ blocks = Without(cur.b0, {g.a})
  /\ objs = Without(cur.o0, Places(g))

Created(ev, g) ==
  LET sz == cur.n * cur.es IN
  IF sz = 0 THEN NothingChanged
  ELSE /\ ev.a \in DOMAIN blocks
       /\ blocks[ev.a].sz = sz
       /\ Without(blocks, {ev.a}) = cur.b0 /\ ev.a \notin DOMAIN cur.b0
       /\ IF cur.op \in Constructs
          THEN objs = [p \in Places(g) |-> cur.vals[(p - ev.a) \div cur.es + 1]] @@ cur.o0
          ELSE objs = cur.o0

Return(ev) ==
  /\ cur # Idle
  /\ cur' = Idle
  /\ UNCHANGED <<blocks, objs>>
  /\ CASE cur.op \in Creates /\ ev.r = "ok" ->
            /\ ~cur.failed /\ ~cur.thrown /\ cur.vast = 0
            /\ \E g \in {[a |-> IF cur.n * cur.es = 0 THEN -1 ELSE ev.a, sz |-> cur.n * cur.es, al |-> cur.ea,
                          n |-> IF cur.op \in Constructs THEN cur.n ELSE 0, es |-> cur.es, vals |-> IF cur.op = "copy" THEN cur.vals ELSE <<>>]} :
                 /\ Created(ev, g) = TRUE
                 /\ hs' = (cur.h :> g) @@ hs
       [] cur.op \in Creates /\ ev.r = "bad" ->
            /\ cur.failed \/ cur.vast = 1
            /\ NothingChanged
            /\ UNCHANGED hs
       [] cur.op \in Creates /\ ev.r = "throw" ->
            /\ cur.thrown
            /\ NothingChanged
            /\ UNCHANGED hs
       [] cur.op = "null" -> ev.r = "ok" /\ NothingChanged /\ UNCHANGED hs
       [] cur.op \in {"free", "die"} ->
            /\ ev.r = "ok"
            /\ IF hs[cur.h].a = -1 THEN NothingChanged ELSE Gone(hs[cur.h])
            /\ hs' = Without(hs, {cur.h})
       [] cur.op = "reset" ->
            /\ ev.r = "ok"
            /\ IF hs[cur.h].a = -1 THEN NothingChanged ELSE Gone(hs[cur.h])
            /\ hs' = [hs EXCEPT ![cur.h] = Empty]
       [] cur.op = "move" ->
            /\ ev.r = "ok" /\ cur.h2 \in DOMAIN hs /\ cur.h2 # cur.h
            /\ IF hs[cur.h].a = -1 THEN NothingChanged ELSE Gone(hs[cur.h])
            /\ hs' = [hs EXCEPT ![cur.h] = hs[cur.h2], ![cur.h2] = Empty]
       [] cur.op = "swap" ->
            /\ ev.r = "ok" /\ cur.h2 \in DOMAIN hs
            /\ NothingChanged
            /\ hs' = [hs EXCEPT ![cur.h] = hs[cur.h2], ![cur.h2] = hs[cur.h]]
       [] cur.op \in {"release", "adopt"} ->          \* the driver keeps what was released
            /\ ev.r = "ok" /\ NothingChanged /\ UNCHANGED hs
       [] OTHER -> FALSE

(* What is read through a handle. *)
Read(ev) ==
  /\ cur = Idle /\ ev.h \in DOMAIN hs
  /\ ev.a = hs[ev.h].a
  /\ IF hs[ev.h].n > 0 THEN /\ Len(ev.vals) = hs[ev.h].n
                            /\ \A i \in 1..Len(ev.vals) : ev.vals[i] = objs[hs[ev.h].a + (i - 1) * hs[ev.h].es]
     ELSE ev.vals = hs[ev.h].vals
  /\ UNCHANGED ownerVars

(* The client writes through a handle. *)
Write(ev) ==
  /\ cur = Idle /\ ev.h \in DOMAIN hs
  /\ objs' = [objs EXCEPT ![hs[ev.h].a + ev.i * hs[ev.h].es] = ev.v]
  /\ UNCHANGED <<blocks, hs, cur>>

OwnerStep(ev) ==
  CASE ev.e = "R" -> blocks' = <<>> /\ objs' = <<>> /\ hs' = <<>> /\ cur' = Idle
    [] ev.e = "call" -> Start(ev)
    [] ev.e = "ua" -> cur # Idle /\ UpAlloc(ev)
    [] ev.e = "ud" -> UpFree(ev)
    [] ev.e = "ct" -> Construct(ev)
    [] ev.e = "cx" -> Throw(ev)
    [] ev.e = "dt" -> Destroy(ev)
    [] ev.e = "ret" -> Return(ev)
    [] ev.e = "rd" -> Read(ev)
    [] ev.e = "w" -> Write(ev)
    [] ev.e = "D" -> cur = Idle /\ blocks = <<>> /\ objs = <<>> /\ UNCHANGED ownerVars
    [] ev.e = "end" -> UNCHANGED ownerVars
    [] OTHER -> FALSE

(* Between calls every block, and every object, has exactly one owner. *)
OwnedOnce ==
  cur = Idle =>
    /\ \A b \in DOMAIN blocks : Cardinality({h \in DOMAIN hs : hs[h].a = b}) = 1
    /\ \A o \in DOMAIN objs : Cardinality({h \in DOMAIN hs : hs[h].a >= 0 /\ o \in Places(hs[h])}) = 1
    /\ \A h \in DOMAIN hs : hs[h].a >= 0 => hs[h].a \in DOMAIN blocks /\ Places(hs[h]) \subseteq DOMAIN objs
ObjectsInBlocks == \A o \in DOMAIN objs : InBlock(o, 1)
=============================================================================
