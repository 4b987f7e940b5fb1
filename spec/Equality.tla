------------------------------ MODULE Equality ------------------------------
(***************************************************************************)
(* Equality of memory resources (C14).  objs is the sequence of the        *)
(* objects made so far: [kind, up], where up is the number of the object   *)
(* that it gets its memory from (0: none).                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE objs

Leaves == {"U", "H", "T"}
PassThrough == {"I", "S"}
Keepers == {"G", "N", "B", "P", "A", "C", "X", "Q", "L"}     \* with records of their own

(* A synchronized resource stands for what it synchronizes. *)
RECURSIVE Bare(_)
Bare(i) == IF objs[i].kind = "S" THEN Bare(objs[i].up) ELSE i

RECURSIVE Eq(_, _)
Eq(i, j) ==
  LET a == objs[i]  b == objs[j] IN
  \/ i = j
  \/ a.kind \in {"H", "T"} /\ b.kind = a.kind
  \/ a.kind = "I" /\ b.kind = "I" /\ Eq(a.up, b.up)
  \/ a.kind = "S" /\ Eq(a.up, Bare(j))

(* What finally receives memory that is released through an object: the    *)
(* malloc heap, nothing at all, or an object with records.                 *)
RECURSIVE Sink(_)
Sink(i) == CASE objs[i].kind \in PassThrough -> Sink(objs[i].up)
             [] objs[i].kind \in {"H", "T"} -> <<objs[i].kind, 0>>
             [] OTHER -> <<"obj", i>>

EqualityInit == objs = <<>>
Make(kind, up) ==
  /\ (kind \in Leaves) = (up = 0)
  /\ up \in 0..Len(objs)
  /\ objs' = Append(objs, [kind |-> kind, up |-> up])

(* Whether a plain resource equals a synchronized one on top of it is left *)
(* open; the other way round it has to be so.                              *)
Answers(m) == \A i, j \in DOMAIN objs : /\ Eq(i, j) => m[i][j] = 1
                                        /\ m[i][j] = 1 => Eq(i, j) \/ Eq(j, i)

EqualityStep(ev) ==
  CASE ev.e = "R" -> objs' = <<>>
    [] ev.e = "o" -> Make(ev.kind, ev.up)
    [] ev.e = "e" -> /\ ev.stable = 1
                     /\ Answers(ev.m) = TRUE
                     /\ UNCHANGED objs
    [] ev.e = "end" -> UNCHANGED objs
    [] OTHER -> FALSE

Reflexive == \A i \in DOMAIN objs : Eq(i, i)
RECURSIVE Plain(_)
Plain(i) == objs[i].kind # "S" /\ (objs[i].kind = "I" => Plain(objs[i].up))
SymmetricOnKind == \A i, j \in DOMAIN objs : objs[i].kind = objs[j].kind /\ Plain(Bare(i)) /\ Plain(Bare(j)) => (Eq(i, j) = Eq(j, i))
Sound == \A i, j \in DOMAIN objs : Eq(i, j) => Sink(i) = Sink(j)
KeepersAreUnique == \A i, j \in DOMAIN objs : i # j /\ objs[i].kind \in Keepers => ~Eq(i, j)
EqualityInv == Reflexive /\ SymmetricOnKind /\ Sound /\ KeepersAreUnique
=============================================================================
