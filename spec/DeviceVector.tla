--------------------------- MODULE DeviceVector ---------------------------
(***************************************************************************)
(* Device vectors (C18): sequences of bounded capacity in memory that is   *)
(* shared by all vectors over the same view.                               *)
(* Event "R": new vectors, [cap, fixed, s]; counted: objects are counted.  *)
(* Event "op": v, op, x (arguments), r (result), lt (what happened to      *)
(* objects in the vectors' memory: <<kind, v, slot, value>>, in order),    *)
(* obs (per vector: cap, and the set of different readings of it), g (1:   *)
(* memory around the vectors is as it was), bal (temporary objects that    *)
(* are still alive).                                                       *)
(***************************************************************************)
EXTENDS Seq, TLC, SequencesExt

VARIABLES vecs,    \* v -> [cap, fixed, s, live]
          dflt, counted
dvVars == <<vecs, dflt, counted>>

DVInit == vecs = <<>> /\ dflt = 0 /\ counted = 0

Slots(s) == 0..(Len(s) - 1)

(* Objects come and go only as they can: <<live slots, fine>>. *)
Lives(live, lt, v) ==
  FoldLeft(LAMBDA acc, e :
     IF e[2] # v \/ ~acc.ok THEN acc
     ELSE CASE e[1] = "c" -> [live |-> acc.live \cup {e[3]}, ok |-> e[3] \notin acc.live]
            [] e[1] = "d" -> [live |-> acc.live \ {e[3]}, ok |-> e[3] \in acc.live]
            [] OTHER      -> [live |-> acc.live, ok |-> e[3] \in acc.live],
     [live |-> live, ok |-> TRUE], lt)

Count(lt, k, v, i) == Cardinality({j \in DOMAIN lt : lt[j][1] = k /\ lt[j][2] = v /\ lt[j][3] = i})

(* Exactly the removed elements are destroyed, and exactly the new ones are
   constructed, once each; nothing happens to others. *)
Touches(lt, v, eff) ==
  /\ \A j \in DOMAIN lt : lt[j][2] = v /\ lt[j][1] # "a"
  /\ \A j \in DOMAIN lt : lt[j][3] \in IF lt[j][1] = "c" THEN eff.new ELSE eff.del
  /\ \A i \in eff.new : Count(lt, "c", v, i) = 1
  /\ \A i \in eff.del : Count(lt, "d", v, i) = 1

Agree(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : s[i] = Unspec \/ s[i] = t[i]

(* All readings of the vector are the same, and what they should be. *)
Seen(o, cap, s) == /\ o.cap = cap /\ o.sz = Len(s) /\ o.un = 0
                   /\ Len(o.rd) = 1 /\ Agree(s, o.rd[1])

Reset(ev) ==
  /\ vecs' = [v \in 1..Len(ev.vs) |-> [cap |-> ev.vs[v].cap, fixed |-> ev.vs[v].fixed, s |-> ev.vs[v].s,
                                       live |-> IF ev.counted = 1 THEN Slots(ev.vs[v].s) ELSE {}]]
  /\ dflt' = ev.dflt /\ counted' = ev.counted

Operate(ev) ==
  \E eff \in {Effect(ev.op, vecs[ev.v].s, ev.x, dflt)} :
  \E lf \in {Lives(vecs[ev.v].live, ev.lt, ev.v)} :
    /\ ev.r = eff.r
    /\ ev.g = 1 /\ ev.bal = 0
    /\ IF counted = 1 THEN Touches(ev.lt, ev.v, eff) /\ lf.ok /\ lf.live = Slots(eff.s) ELSE ev.lt = <<>>
    /\ Len(ev.obs) = Len(vecs)
    /\ \A w \in DOMAIN vecs : Seen(ev.obs[w], vecs[w].cap, IF w = ev.v THEN eff.s ELSE vecs[w].s)
    /\ vecs' = [vecs EXCEPT ![ev.v].s = ev.obs[ev.v].rd[1], ![ev.v].live = lf.live]
    /\ UNCHANGED <<dflt, counted>>

DVStep(ev) == CASE ev.e = "R" -> Reset(ev)
                [] ev.e = "op" -> ev.v \in DOMAIN vecs /\ Operate(ev)
                [] ev.e = "end" -> UNCHANGED dvVars
                [] OTHER -> FALSE

WithinCapacity == \A v \in DOMAIN vecs : /\ Len(vecs[v].s) <= vecs[v].cap
                                         /\ vecs[v].fixed = 1 => Len(vecs[v].s) = vecs[v].cap
LiveIsSize == counted = 1 => \A v \in DOMAIN vecs : vecs[v].live = Slots(vecs[v].s)
=============================================================================
