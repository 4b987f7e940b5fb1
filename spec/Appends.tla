------------------------------ MODULE Appends ------------------------------
(***************************************************************************)
(* Concurrent appends to device vectors (C19).  A history of events:       *)
(*   [e |-> "R", counted, dflt, vs: <<[cap, s]>>]  vectors with contents s *)
(*   [e |-> "call", t, op, v, x]   thread t calls an operation of vector v *)
(*   [e |-> "ret", t, r, race]     it returns r (race: 1 if it accessed    *)
(*                                 the shared size other than atomically)  *)
(*   [e |-> "fin", obs, lt, g, bal] all are done: contents of each vector, *)
(*                                 life of the elements, as in C18         *)
(***************************************************************************)
EXTENDS Seq, TLC, SequencesExt, FiniteSetsExt

VARIABLES vecs,     \* v -> [cap, s]: as they were at the start
          claims,   \* set of [v, at, vals]: positions that appends returned
          pend,     \* thread -> the call that it is in
          begun,    \* v -> number of elements whose append has been called
          dflt, counted
apVars == <<vecs, claims, pend, begun, dflt, counted>>

ApInit == vecs = <<>> /\ claims = {} /\ pend = <<>> /\ begun = <<>> /\ dflt = 0 /\ counted = 0

Without(f, s) == [x \in DOMAIN f \ s |-> f[x]]

(* What an append adds. *)
Added(op, x) == Effect(op, <<>>, x, dflt).s
Appending == {"push", "bulk", "bulkv", "impl"}

Reset(ev) ==
  /\ vecs' = [v \in 1..Len(ev.vs) |-> [cap |-> ev.vs[v].cap, s |-> ev.vs[v].s]]
  /\ claims' = {} /\ pend' = <<>> /\ begun' = [v \in 1..Len(ev.vs) |-> 0]
  /\ dflt' = ev.dflt /\ counted' = ev.counted

Finished(v) == FoldSet(LAMBDA c, n : n + Len(c.vals), 0, {c \in claims : c.v = v})

Call(ev) ==
  /\ ev.t \notin DOMAIN pend /\ ev.v \in DOMAIN vecs
  /\ ev.op \in Appending \cup {"size"}
  /\ LET a == IF ev.op = "size" THEN <<>> ELSE Added(ev.op, ev.x) IN
     /\ pend' = (ev.t :> [v |-> ev.v, op |-> ev.op, vals |-> a, low |-> Len(vecs[ev.v].s) + Finished(ev.v)]) @@ pend
     /\ begun' = [begun EXCEPT ![ev.v] = @ + Len(a)]
     /\ Len(vecs[ev.v].s) + begun'[ev.v] <= vecs[ev.v].cap
  /\ UNCHANGED <<vecs, claims, dflt, counted>>

Covers(c, i) == c.at <= i /\ i < c.at + Len(c.vals)

(* The position that an append may return. *)
OwnPositions(c, r) ==
  /\ r >= Len(vecs[c.v].s)
  /\ r + Len(c.vals) <= Len(vecs[c.v].s) + begun[c.v]
  /\ \A d \in claims : d.v = c.v => \A i \in r..(r + Len(c.vals) - 1) : ~Covers(d, i)
SizeSeen(c, r) == c.low <= r /\ r <= Len(vecs[c.v].s) + begun[c.v]

Return(ev) ==
  /\ ev.t \in DOMAIN pend
  /\ ev.race = 0
  /\ LET c == pend[ev.t] IN
     IF c.op = "size" THEN SizeSeen(c, ev.r) /\ UNCHANGED claims
     ELSE /\ OwnPositions(c, ev.r)
          /\ claims' = claims \cup (IF c.vals = <<>> THEN {} ELSE {[v |-> c.v, at |-> ev.r, vals |-> c.vals]})
  /\ pend' = Without(pend, {ev.t})
  /\ UNCHANGED <<vecs, begun, dflt, counted>>

(* What vector v has to contain at the end. *)
Final(v) ==
  [i \in 1..(Len(vecs[v].s) + begun[v]) |->
     IF i <= Len(vecs[v].s) THEN vecs[v].s[i]
     ELSE LET c == CHOOSE c \in claims : c.v = v /\ Covers(c, i - 1) IN c.vals[i - c.at]]

Everywhere(v) == \A i \in (Len(vecs[v].s) + 1)..(Len(vecs[v].s) + begun[v]) : \E c \in claims : c.v = v /\ Covers(c, i - 1)
Agree(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : s[i] = Unspec \/ s[i] = t[i]

(* Every appended element, and nothing else, was constructed, once. *)
OnceEach(lt) ==
  /\ \A j \in DOMAIN lt : /\ lt[j][1] = "c" /\ lt[j][2] \in DOMAIN vecs
                          /\ Len(vecs[lt[j][2]].s) <= lt[j][3] /\ lt[j][3] < Len(vecs[lt[j][2]].s) + begun[lt[j][2]]
  /\ Cardinality({<<lt[j][2], lt[j][3]>> : j \in DOMAIN lt}) = Len(lt)
  /\ Len(lt) = FoldSet(LAMBDA v, n : n + begun[v], 0, DOMAIN vecs)

Fine(ev) ==
  /\ pend = <<>>
  /\ ev.g = 1 /\ ev.bal = 0
  /\ Len(ev.obs) = Len(vecs)
  /\ \A v \in DOMAIN vecs : /\ Everywhere(v)
                            /\ ev.obs[v].cap = vecs[v].cap
                            /\ ev.obs[v].sz = Len(vecs[v].s) + begun[v]
                            /\ Agree(Final(v), ev.obs[v].s)
  /\ counted = 1 => OnceEach(ev.lt)

ApStep(ev) ==
  CASE ev.e = "R" -> Reset(ev)
    [] ev.e = "call" -> Call(ev)
    [] ev.e = "ret" -> Return(ev)
    [] ev.e = "fin" -> Fine(ev) /\ UNCHANGED apVars
    [] ev.e = "end" -> UNCHANGED apVars
    [] OTHER -> FALSE

NoOverlap == \A c, d \in claims : c # d /\ c.v = d.v => \A i \in c.at..(c.at + Len(c.vals) - 1) : ~Covers(d, i)
WithinCapacity == \A c \in claims : c.at + Len(c.vals) <= vecs[c.v].cap
=============================================================================
