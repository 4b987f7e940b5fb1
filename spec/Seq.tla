-------------------------------- MODULE Seq --------------------------------
(***************************************************************************)
(* The sequence operations of vector-like containers, as functions from a  *)
(* sequence (and arguments x) to                                           *)
(*   [s: the new sequence, r: the returned value, del: positions whose     *)
(*    elements are destroyed, new: positions whose elements are new].      *)
(* Positions count from 0, as in C++; Unspec stands for a value that the      *)
(* operation leaves unspecified.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Unspec == 9999999
Fill(n, x) == [i \in 1..n |-> x]
Upto(a, b) == a..(b - 1)                     \* positions a, ..., b-1
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Grow(s, t, r) == [s |-> s \o t, r |-> r, del |-> {}, new |-> Upto(Len(s), Len(s) + Len(t))]
ToSize(s, n, x) == IF n <= Len(s) THEN [s |-> Take(s, n), r |-> 0, del |-> Upto(n, Len(s)), new |-> {}]
                   ELSE Grow(s, Fill(n - Len(s), x), 0)
Whole(s, t) == [s |-> t, r |-> 0, del |-> Upto(0, Len(s)), new |-> Upto(0, Len(t))]
Insert(s, p, t) == [s |-> Take(s, p) \o t \o Drop(s, p), r |-> p, del |-> {}, new |-> Upto(p, p + Len(t))]
Erase(s, p, q) == [s |-> Take(s, p) \o Drop(s, q), r |-> p, del |-> Upto(p, q), new |-> {}]

(* d: the value of a default constructed element *)
Effect(op, s, x, d) ==
  CASE op = "push"    -> Grow(s, <<x[1]>>, Len(s))
    [] op = "pusha"   -> Grow(s, <<s[x[1] + 1]>>, Len(s))            \* the argument is an element
    [] op = "bulk"    -> Grow(s, Fill(x[1], d), Len(s))
    [] op = "bulkv"   -> Grow(s, Fill(x[1], x[2]), Len(s))
    [] op = "bulka"   -> Grow(s, Fill(x[1], s[x[2] + 1]), Len(s))
    [] op = "impl"    -> Grow(s, Fill(x[1], Unspec), Len(s))
    [] op = "pop"     -> [s |-> Take(s, Len(s) - 1), r |-> Len(s) - 1, del |-> {Len(s) - 1}, new |-> {}]
    [] op = "clear"   -> Whole(s, <<>>)
    [] op = "resize"  -> ToSize(s, x[1], d)
    [] op = "resizev" -> ToSize(s, x[1], x[2])
    [] op = "resizea" -> ToSize(s, x[1], s[x[2] + 1])
    [] op = "resimp"  -> ToSize(s, x[1], Unspec)
    [] op = "assign"  -> Whole(s, Fill(x[1], x[2]))
    [] op = "assignr" -> Whole(s, x)
    [] op = "set"     -> [s |-> [s EXCEPT ![x[1] + 1] = x[2]], r |-> 0, del |-> {}, new |-> {}]
    [] op = "ins"     -> Insert(s, x[1], <<x[2]>>)                   \* position, value
    [] op = "insa"    -> Insert(s, x[1], <<s[x[2] + 1]>>)
    [] op = "insn"    -> Insert(s, x[1], Fill(x[2], x[3]))           \* position, count, value
    [] op = "insna"   -> Insert(s, x[1], Fill(x[2], s[x[3] + 1]))
    [] op = "insr"    -> Insert(s, x[1], Drop(x, 1))
    [] op = "del"     -> Erase(s, x[1], x[1] + 1)
    [] op = "delr"    -> Erase(s, x[1], x[2])
    [] op = "none"    -> [s |-> s, r |-> 0, del |-> {}, new |-> {}]

(* Whether a client may call it. *)
Allowed(op, s, x, cap) ==
  /\ Len(Effect(op, s, x, 0).s) <= cap
  /\ op = "pop" => Len(s) > 0
  /\ op \in {"pusha", "del", "set"} => x[1] < Len(s)
  /\ op \in {"bulka", "resizea", "insa"} => x[2] < Len(s)
  /\ op = "insna" => x[3] < Len(s)
  /\ op \in {"ins", "insa", "insn", "insna", "insr"} => x[1] <= Len(s)
  /\ op = "delr" => x[1] <= x[2] /\ x[2] <= Len(s)
=============================================================================
