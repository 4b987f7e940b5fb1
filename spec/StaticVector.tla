--------------------------- MODULE StaticVector ---------------------------
(***************************************************************************)
(* Static vectors (C21): sequences of bounded capacity that own their      *)
(* elements.  Events are those of DeviceVector.                            *)
(* Where DeviceVector demands that exactly the new elements are constructed *)
(* and exactly the removed ones destroyed, elements may move here: at and  *)
(* after the first position that the operation concerns, any objects may   *)
(* come and go, as long as objects are only constructed in empty slots,    *)
(* destroyed and assigned in taken ones, and in the end exactly the slots  *)
(* of the elements are taken.                                              *)
(***************************************************************************)
EXTENDS DeviceVector

SVEffect(op, v, x) ==
  CASE op \in {"asg", "copyc"} -> Whole(vecs[v].s, vecs[x[1]].s)
    [] op = "new0" -> Whole(vecs[v].s, <<>>)
    [] op = "newd" -> Whole(vecs[v].s, Fill(x[1], dflt))
    [] op = "newn" -> Whole(vecs[v].s, Fill(x[1], x[2]))
    [] op = "newr" -> Whole(vecs[v].s, x)
    [] OTHER -> Effect(op, vecs[v].s, x, dflt)

(* The first position that is concerned. *)
First(eff, s) == LET c == eff.del \cup eff.new IN IF c = {} THEN Len(s) ELSE CHOOSE i \in c : \A j \in c : i <= j

SVOperate(ev) ==
  \E eff \in {SVEffect(ev.op, ev.v, ev.x)} :
  \E lf \in {Lives(vecs[ev.v].live, ev.lt, ev.v)} :
  \E f \in {First(eff, vecs[ev.v].s)} :
    /\ ev.r = eff.r
    /\ ev.g = 1 /\ ev.bal = 0
    /\ IF counted = 1
       THEN /\ \A j \in DOMAIN ev.lt : ev.lt[j][2] = ev.v /\ ev.lt[j][3] >= f
            /\ lf.ok /\ lf.live = Slots(eff.s)
       ELSE ev.lt = <<>>
    /\ Len(ev.obs) = Len(vecs)
    /\ \A w \in DOMAIN vecs : Seen(ev.obs[w], vecs[w].cap, IF w = ev.v THEN eff.s ELSE vecs[w].s)
    /\ vecs' = [vecs EXCEPT ![ev.v].s = ev.obs[ev.v].rd[1], ![ev.v].live = lf.live]
    /\ UNCHANGED <<dflt, counted>>

SVStep(ev) == CASE ev.e = "R" -> Reset(ev)
                [] ev.e = "op" -> ev.v \in DOMAIN vecs /\ SVOperate(ev)
                [] ev.e = "end" -> UNCHANGED dvVars
                [] OTHER -> FALSE
=============================================================================
