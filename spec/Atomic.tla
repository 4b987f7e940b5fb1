------------------------------- MODULE Atomic -------------------------------
(***************************************************************************)
(* Atomic references (C20): every operation takes effect at one moment     *)
(* between its call and its return (Effect, a silent step).  Values are    *)
(* sequences of bytes, the least significant one first.                    *)
(*   [e |-> "R", atomic, vals: initial values of the objects]              *)
(*   [e |-> "call", t, op, i, x, y, o, f]   operation on object i, with    *)
(*        operands x, y, memory order o (f: in case of failure)            *)
(*   [e |-> "ret", t, r, acc]  r: value returned (cas: the value reported);*)
(*        ok: whether a compare-exchange succeeded; acc: accesses made,    *)
(*        <<kind, order>>, kind a(tomic), f(ailed exchange), p(lain), |    *)
(*   [e |-> "fin", vals, g]                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC

VARIABLES obj, pend, isatomic
atVars == <<obj, pend, isatomic>>

AtInit == obj = <<>> /\ pend = <<>> /\ isatomic = 1

RECURSIVE Sum(_, _, _)
Sum(a, b, c) == IF a = <<>> THEN <<>> ELSE LET s == a[1] + b[1] + c IN <<s % 256>> \o Sum(Tail(a), Tail(b), s \div 256)
Inverse(a) == [i \in DOMAIN a |-> 255 - a[i]]
Zero(a) == [i \in DOMAIN a |-> 0]
Neg(a) == Sum(Inverse(a), Zero(a), 1)

New(op, v, x, y) ==
  CASE op \in {"store", "assign", "exch"} -> x
    [] op = "add" -> Sum(v, x, 0)
    [] op = "sub" -> Sum(v, Neg(x), 0)
    [] op = "and" -> [i \in DOMAIN v |-> v[i] & x[i]]
    [] op = "or"  -> [i \in DOMAIN v |-> v[i] | x[i]]
    [] op = "xor" -> [i \in DOMAIN v |-> v[i] ^^ x[i]]
    [] op = "cas" -> IF v = x THEN y ELSE v
    [] OTHER -> v
Result(op, v, x) == CASE op = "store" -> <<>>
                      [] op = "assign" -> x
                      [] OTHER -> v        \* a successful cas leaves expected = v
Ops == {"load", "store", "assign", "exch", "cas", "add", "sub", "and", "or", "xor"}

Call(ev) ==
  /\ ev.t \notin DOMAIN pend /\ ev.op \in Ops /\ ev.i \in DOMAIN obj
  /\ pend' = (ev.t :> [op |-> ev.op, i |-> ev.i, x |-> ev.x, y |-> ev.y, o |-> ev.o, f |-> ev.f, done |-> FALSE, r |-> <<>>, ok |-> 1]) @@ pend
  /\ UNCHANGED <<obj, isatomic>>

Effect(t) ==
  /\ t \in DOMAIN pend /\ ~pend[t].done
  /\ LET c == pend[t] v == obj[c.i] IN
     /\ obj' = [obj EXCEPT ![c.i] = New(c.op, v, c.x, c.y)]
     /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].r = Result(c.op, v, c.x), ![t].ok = IF c.op = "cas" /\ v # c.x THEN 0 ELSE 1]
  /\ UNCHANGED isatomic

(* The memory orders that are strong enough: relaxed 0, consume 1, acquire 2,
   release 3, acq_rel 4, seq_cst 5. *)
Enough(o) == CASE o = 0 -> 0..5 [] o = 1 -> {1, 2, 4, 5} [] o = 2 -> {2, 4, 5} [] o = 3 -> {3, 4, 5} [] o = 4 -> {4, 5} [] OTHER -> {5}
Ordered(c, acc) ==
  /\ \A j \in DOMAIN acc : acc[j][1] # "p"
  /\ LET need == IF c.op = "cas" /\ c.ok = 0 THEN c.f ELSE c.o IN
     \E j \in DOMAIN acc : acc[j][1] = "|" \/ acc[j][2] \in Enough(need)

Return(ev) ==
  /\ ev.t \in DOMAIN pend /\ pend[ev.t].done
  /\ ev.r = pend[ev.t].r
  /\ ev.ok = pend[ev.t].ok
  /\ isatomic = 1 => Ordered(pend[ev.t], ev.acc)
  /\ pend' = [t \in DOMAIN pend \ {ev.t} |-> pend[t]]
  /\ UNCHANGED <<obj, isatomic>>

AtStep(ev) ==
  CASE ev.e = "R" -> obj' = ev.vals /\ pend' = <<>> /\ isatomic' = ev.atomic
    [] ev.e = "call" -> Call(ev)
    [] ev.e = "ret" -> Return(ev)
    [] ev.e = "fin" -> pend = <<>> /\ ev.vals = obj /\ ev.g = 1 /\ UNCHANGED atVars
    [] ev.e = "end" -> UNCHANGED atVars
    [] OTHER -> FALSE
=============================================================================
