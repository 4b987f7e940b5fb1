----------------------------- MODULE Iterators -----------------------------
(***************************************************************************)
(* Iterators (C23) over a sequence of rows; an iterator stands for an      *)
(* integer position 0..Len(rows) between rows.  Kinds:                     *)
(*   p P  pointers to elements (P: constant)    r R  reverse ones over them *)
(*   F G  iterators of a jagged vector           s S  reverse ones over them *)
(* For the first four every row has exactly one element.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Unspec == 9999999
VARIABLES rows,         \* <<place, number of elements>> of every row
          vals,         \* value of the first element of every row
          its           \* [k: kind, p: position; -1: none (default constructed)]
iVars == <<rows, vals, its>>
IInit == rows = <<>> /\ vals = <<>> /\ its = <<>>

Dir(k) == IF k \in {"p", "P", "F", "G"} THEN 1 ELSE -1
Const(k) == k \in {"P", "R", "G", "S"}
ToConst == [k \in {"p", "r", "F", "s"} |-> CASE k = "p" -> "P" [] k = "r" -> "R" [] k = "F" -> "G" [] k = "s" -> "S"]
Wrapped == [k \in {"p", "P", "F", "G"} |-> CASE k = "p" -> "r" [] k = "P" -> "R" [] k = "F" -> "s" [] k = "G" -> "S"]
Moved(it, n) == [it EXCEPT !.p = @ + n * Dir(it.k)]
Target(it, n) == IF Dir(it.k) = 1 THEN it.p + n ELSE it.p - 1 - n
N == Len(rows)
Valid(it) == it.p \in 0..N
Reaches(it, n) == it.p # -1 /\ Target(it, n) \in 0..(N - 1)

(* What is equal to an iterator is exactly the position it stands for (a
   default constructed one is not looked at). *)
Observed(ev) ==
  /\ ev.vals = vals'
  /\ Len(ev.obs) = Len(its')
  /\ \A i \in DOMAIN its' : IF its'[i].p = -1 THEN ev.obs[i] = <<-1>> ELSE ev.obs[i] = <<its'[i].p>>

Keep == UNCHANGED <<rows, vals>>
Add(it) == its' = Append(its, it) /\ Keep
Make(ev) == Add([k |-> ev.k, p |-> IF (ev.x[1] = 0) = (Dir(ev.k) = 1) THEN 0 ELSE N])
Default(ev) == Add([k |-> ev.k, p |-> -1])
Step(ev, n) ==      \* x[1] = 1: postfix; returns what it was (or itself)
  /\ Valid(Moved(its[ev.h], n)) /\ Keep
  /\ IF ev.x[1] = 1 THEN its' = Append([its EXCEPT ![ev.h] = Moved(@, n)], its[ev.h])
     ELSE ev.same = 1 /\ its' = [its EXCEPT ![ev.h] = Moved(@, n)]
Advance(ev) == /\ Valid(Moved(its[ev.h], ev.x[1])) /\ ev.same = 1 /\ Keep
               /\ its' = [its EXCEPT ![ev.h] = Moved(@, ev.x[1])]
Plus(ev) == Valid(Moved(its[ev.h], ev.x[1])) /\ Add(Moved(its[ev.h], ev.x[1]))
Copy(ev) == Add(its[ev.h])
Convert(ev) == its[ev.h].k \in DOMAIN ToConst /\ Add([its[ev.h] EXCEPT !.k = ToConst[@]])
Wrap(ev) == its[ev.h].k \in DOMAIN Wrapped /\ Add([its[ev.h] EXCEPT !.k = Wrapped[@]])
Base(ev) == \E k \in DOMAIN Wrapped : Wrapped[k] = its[ev.h].k /\ Add([its[ev.h] EXCEPT !.k = k])
Assignable(k, l) == k = l \/ (l \in DOMAIN ToConst /\ ToConst[l] = k)
Assign(ev) == /\ Assignable(its[ev.h].k, its[ev.o].k) /\ Keep
              /\ its' = [its EXCEPT ![ev.h].p = its[ev.o].p]
(* Dereferencing, in one of the ways: *i, i->, i[n]. *)
Get(ev) == /\ UNCHANGED iVars /\ Reaches(its[ev.h], ev.x[1])
           /\ ev.got = <<rows[Target(its[ev.h], ev.x[1]) + 1][1], rows[Target(its[ev.h], ev.x[1]) + 1][2]>>
           /\ ev.v = vals[Target(its[ev.h], ev.x[1]) + 1]
Put(ev) == /\ ~Const(its[ev.h].k) /\ Reaches(its[ev.h], ev.x[1]) /\ UNCHANGED <<rows, its>>
           /\ rows[Target(its[ev.h], ev.x[1]) + 1][2] > 0
           /\ vals' = [vals EXCEPT ![Target(its[ev.h], ev.x[1]) + 1] = ev.x[2]]
Equal(ev) == /\ UNCHANGED iVars /\ its[ev.h].p # -1 /\ its[ev.o].p # -1
             /\ ev.r = (IF its[ev.h].p = its[ev.o].p THEN 1 ELSE 0) /\ ev.q = 1 - ev.r
(* All rows, from h until it equals o; places of the rows that are met. *)
Walk(ev) == LET a == its[ev.h] b == its[ev.o] d == Dir(a.k) IN
            /\ UNCHANGED iVars /\ a.k = b.k /\ a.p # -1 /\ b.p # -1 /\ (b.p - a.p) * d >= 0
            /\ ev.got = [i \in 1..((b.p - a.p) * d) |-> rows[Target(a, i - 1) + 1][1]]

IDo(ev) == CASE ev.op = "make" -> Make(ev)
             [] ev.op = "def" -> Default(ev)
             [] ev.op = "inc" -> Step(ev, 1)
             [] ev.op = "dec" -> Step(ev, -1)
             [] ev.op = "adv" -> Advance(ev)
             [] ev.op = "plus" -> Plus(ev)
             [] ev.op = "copy" -> Copy(ev)
             [] ev.op = "conv" -> Convert(ev)
             [] ev.op = "wrap" -> Wrap(ev)
             [] ev.op = "base" -> Base(ev)
             [] ev.op = "asg" -> Assign(ev)
             [] ev.op = "get" -> Get(ev)
             [] ev.op = "put" -> Put(ev)
             [] ev.op = "eq" -> Equal(ev)
             [] ev.op = "walk" -> Walk(ev)

IStep(ev) == CASE ev.e = "R" -> rows' = ev.rows /\ vals' = ev.vals /\ its' = <<>>
               [] ev.e = "op" -> IDo(ev) /\ Observed(ev)
               [] ev.e = "end" -> UNCHANGED iVars
               [] OTHER -> FALSE
Sound == \A i \in DOMAIN its : its[i].p = -1 \/ Valid(its[i])
=============================================================================
